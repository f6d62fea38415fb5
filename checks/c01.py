"""C01: two-body dispersion law."""

import math

import torch

from . import common as C

EXPLANATION = """
dispersion2 runs on symbolic positions, C6, r4r2, vdW radii, damping parameters
and cutoff (all inputs at once); every entry of the result is compared, by z3,
with the damped sum over real pairs written from the published formulas.  The
configurations enumerate damping function, presence of s10/s8, output form,
batch shape and padding pattern.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr", "1 <= r4r2 <= 10, 0.5 <= C6 <= 500, 2 <= rvdw <= 8"]


def law(ctx, cfg):
    from tad_dftd4.dispersion.twobody import dispersion2

    kind = cfg["damping"]
    systems = cfg["Z"]
    nb, n = len(systems), len(systems[0])
    s10, s8 = cfg.get("s10", False), cfg.get("s8", True)
    names = ["s6"] + (["s8"] if s8 else []) + list(C.NEEDS[kind]) + (["s10"] if s10 else [])
    p = C.params(ctx, names, cfg.get("fixed"), cfg.get("far"))
    cut = ctx.real("cut", *C.far(cfg, "cut", (1, 60))) if cfg.get("cut", True) else None
    one = cfg.get("wide")
    pos, c6, rr, rv = [], [], [], []
    for b in range(nb):
        coords = C.grid(n) if one else None
        pos.append(ctx.positions(f"p{b}", n, box=cfg.get("box", C.far(cfg, "box", 6.0)), coords=coords))
        c6.append(C.sym_matrix(ctx, f"c6{b}", n, *C.far(cfg, "c6", (0.5, 500))))
        rr.append(ctx.reals(f"rr{b}_", n, *C.far(cfg, "r4r2", (1, 10))))
        rv.append(C.sym_matrix(ctx, f"rv{b}", n, *C.far(cfg, "rvdw", (2, 8))))
    num = torch.tensor(systems)
    P_, C_, R_, V_ = ctx.tensor(pos), ctx.tensor(c6), ctx.tensor(rr), ctx.tensor(rv)
    lead = cfg.get("lead")  # target leading batch shape
    if lead is not None:
        num, P_, C_, R_, V_ = (
            num.reshape(*lead, n), P_.reshape(*lead, n, 3), C_.reshape(*lead, n, n),
            R_.reshape(*lead, n), V_.reshape(*lead, n, n),
        )
    kw = {}
    if C.radius_type(kind) == "rvdw" or cfg.get("give_rvdw"):
        kw["rvdw"] = V_
    if cut is not None:
        kw["cutoff"] = ctx.tensor(cut)
    if cfg.get("matrix"):
        kw["as_matrix"] = True
    e = dispersion2(num, P_, C.tparams(ctx, p), C_, R_, damping_function=C.damping(kind), **kw)
    want = []
    for b in range(nb):
        Z = systems[b]
        rows = []
        for i in range(n):
            row = []
            for j in range(n):
                if i == j or not (Z[i] and Z[j]):
                    row.append(ctx.lit(0))
                    continue
                r = ctx.sqrt(ctx.dist2(pos[b][i], pos[b][j]))
                v = C.pair_energy(ctx, kind, p, c6[b][i][j], 3 * rr[b][i] * rr[b][j], rv[b][i][j], r, s10, s8)
                row.append(ctx.ite(ctx.le(r, 60 if cut is None else cut), -v, 0))
            rows.append(row if cfg.get("matrix") else ctx.lit(0.5) * ctx.sum(row))
        want.append(rows)
    shp = (*lead, n) if lead is not None else (nb, n)
    if cfg.get("matrix"):
        shp = (*shp, n)
    got = e.reshape(-1)
    ctx.check_bool("shape", tuple(e.shape) == shp)
    flat = [x for rows in want for row in rows for x in (row if cfg.get("matrix") else [row])]
    ctx.check_eq("two-body energy", got, flat)


def big(ctx, cfg):
    """Many atoms: only the scaling parameters are symbols."""
    from tad_dftd4.dispersion.twobody import dispersion2

    kind = cfg["damping"]
    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    p = C.params(ctx, ["s6", "s8", *C.NEEDS[kind]], dict(a1=0.4, a2=4.8, rs6=1.1, rs8=0.9, alp=14, bet=0.3))
    g = [[[x + 0.25 * b for x in r] for r in C.grid(n)] for b in range(nb)]
    f = lambda b, i, j: 20 + 15 * math.sin(1.0 + i + j + b) + 3 * math.cos(i * j)  # noqa: E731
    c6 = torch.tensor([[[f(b, i, j) for j in range(n)] for i in range(n)] for b in range(nb)], dtype=C.DT)
    rv = 4 + c6 / 40
    rr = torch.tensor([[2 + math.cos(i + b) for i in range(n)] for b in range(nb)], dtype=C.DT)
    pos = torch.tensor(g, dtype=C.DT)
    cut = cfg.get("cutv", 60.0)
    a = (torch.tensor(sysm), pos, C.tparams(ctx, p, plain=True), c6, rr)
    lead = cfg.get("lead", [nb])
    mat = cfg.get("matrix", False)
    a = tuple(x.reshape(*lead, *x.shape[1:]) if torch.is_tensor(x) else x for x in a)
    e = dispersion2(*a, rvdw=rv.reshape(*lead, n, n), damping_function=C.damping(kind), cutoff=torch.tensor(cut, dtype=C.DT), **({"as_matrix": True} if mat else {}))
    ctx.check_bool("shape", tuple(e.shape) == (*lead, n, *([n] if mat else [])))
    want = []
    for b in range(nb):
        for i in range(n):
            u = w = 0.0
            for j in range(n):
                if mat:
                    u = w = 0.0
                    want.append(ctx.lit(0))
                if i == j or not (sysm[b][i] and sysm[b][j]):
                    continue
                r = math.dist(g[b][i], g[b][j])
                if r > cut:
                    continue
                qq = 3 * float(rr[b, i]) * float(rr[b, j])
                d = [damp_number(kind, k, r, qq if C.radius_type(kind) == "r4r2" else float(rv[b, i, j])) for k in (6, 8)]
                u -= 0.5 * float(c6[b, i, j]) * d[0]
                w -= 0.5 * float(c6[b, i, j]) * qq * d[1]
                if mat:
                    want[-1] = p["s6"] * ctx.lit(2 * u) + p["s8"] * ctx.lit(2 * w)
            if not mat:
                want.append(p["s6"] * ctx.lit(u) + p["s8"] * ctx.lit(w))
    ctx.check_eq("two-body energy", e.reshape(-1), want)


def damp_number(kind, n, r, rad):
    a1, a2, alp, bet = 0.4, 4.8, 14 + (n == 8) * 2, 0.3
    rs = 1.1 if n == 6 else 0.9
    if kind == "rational":
        return 1 / (r**n + (a1 * math.sqrt(rad) + a2) ** n)
    if kind == "zero":
        return 1 / (1 + 6 * (rs * rad / r) ** alp) / r**n
    if kind == "mzero":
        return 1 / (1 + 6 * (r / (rs * rad) + bet * rad) ** (-alp)) / r**n
    r0 = a1 * math.sqrt(rad) + a2
    return r**bet / (r ** (n + bet) + r0 ** (n + bet))


def jobs(tier):
    J = []
    R, Ze, M, O = "rational", "zero", "mzero", "op"

    def add(**k):
        J.append(dict(fn="law", cfg=k))

    add(damping=R, Z=[[6, 1]], lead=[])
    add(damping=R, Z=[[6]], lead=[])
    add(damping=R, Z=[[6, 1, 8]], lead=[], box=40, cut=False)
    add(damping=R, Z=[[6, 0, 8, 1]], lead=[])
    add(damping=R, Z=[[6, 1, 8]], lead=[], s10=True)
    add(damping=R, Z=[[1, 1, 17]], lead=[], s10=True, matrix=True)
    add(damping=R, Z=[[86, 103, 0]], lead=[], matrix=True)
    add(damping=R, Z=[[6, 1, 0], [8, 1, 1]])
    add(damping=R, Z=[[6, 1], [8, 0], [9, 9]], matrix=True)
    add(damping=R, Z=[[6, 1], [8, 7], [9, 0], [2, 1]], lead=[2, 2])
    add(damping=R, Z=[[0, 1, 0, 8]], lead=[1])
    add(damping=R, Z=[[6, 1, 3]], lead=[], give_rvdw=True)
    add(damping=Ze, Z=[[6, 1, 8]], lead=[], fixed={"alp": 14})
    add(damping=Ze, Z=[[6, 1]], lead=[])
    add(damping=Ze, Z=[[6, 0, 8], [1, 1, 0]], fixed={"alp": 16})
    add(damping=M, Z=[[6, 1, 8]], lead=[], fixed={"alp": 14})
    add(damping=M, Z=[[6, 1]], lead=[])
    add(damping=M, Z=[[6, 1, 0]], lead=[], matrix=True, fixed={"alp": 14, "bet": 0})
    add(damping=O, Z=[[6, 1, 8]], lead=[])
    add(damping=O, Z=[[6, 1], [2, 0]], matrix=True)
    add(damping=O, Z=[[6, 1, 8]], lead=[], fixed={"bet": 0})
    add(damping=R, Z=[list(range(1, 13))], lead=[], wide=True, s10=True)
    for d in (R, Ze, M, O):
        add(damping=d, Z=[[6, 1]], lead=[], far=True)
        add(damping=d, Z=[[6, 1, 8]], lead=[], far=True, fixed={"alp": 14, "bet": 1})
        add(damping=d, Z=[[6, 1, 0], [8, 1, 1]], far=True, fixed={"alp": 14, "bet": 0})
    add(damping=R, Z=[[6, 1, 8]], lead=[], s10=True, far=True)
    add(damping=R, Z=[[6, 1, 8]], lead=[], matrix=True, far=True, cut=False)
    for d in ("user", "userv"):
        # damping functions written by the user
        add(damping=d, Z=[[6, 1, 8]], lead=[])
        add(damping=d, Z=[[6, 1, 0], [8, 1, 1]], matrix=True)
        add(damping=d, Z=[[6, 1]], lead=[], far=True)
    add(damping="user", Z=[[6, 1, 8]], lead=[], s10=True)
    many = lambda ns, n: [[(13 * i + 7 * b) % 100 + 1 if i < m else 0 for i in range(n)] for b, m in enumerate(ns)]  # noqa: E731
    for d in (R, Ze, M, O):
        J.append(dict(fn="big", cfg=dict(damping=d, Z=many([20], 20))))
        J.append(dict(fn="big", cfg=dict(damping=d, Z=many([40, 7, 35], 42))))
        J.append(dict(fn="big", cfg=dict(damping=d, Z=many([120], 120), cutv=18.3)))
    for k, (lead, zs) in enumerate(C.patterns()):
        J.append(dict(fn="big", cfg=dict(damping=(R, Ze, M, O)[k % 4], Z=zs, lead=lead, cutv=(60.0, 6.0)[k % 2])))
        J.append(dict(fn="big", cfg=dict(damping=(R, Ze, M, O)[(k + 1) % 4], Z=zs, lead=lead, cutv=(60.0, 6.0)[(k + 1) % 2], matrix=True)))
    if tier == "thorough":
        J.append(dict(fn="big", cfg=dict(damping=R, Z=many([300], 300))))
        add(damping=R, Z=[[6, 1, 8, 7, 9]], lead=[], s10=True)
        add(damping=R, Z=[[6, 1, 8, 7, 9, 17]], lead=[], matrix=True)
        add(damping=R, Z=[[6, 1, 8, 0], [7, 7, 0, 0], [1, 0, 0, 0]], s10=True)
        add(damping=R, Z=[list(range(1, 31))], lead=[], wide=True)
        add(damping=O, Z=[[6, 1, 8, 7, 0]], lead=[])
        add(damping=M, Z=[[6, 1, 8, 0]], lead=[])
        add(damping=Ze, Z=[[6, 1, 8, 0]], lead=[])
    return J
