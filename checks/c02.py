"""C02: three-body (Axilrod-Teller-Muto) law."""

import math

import torch

from . import common as C

EXPLANATION = """
get_atm_dispersion and the ATM terms (approximate and exact C9, Becke-Johnson
and vdW radii) run on symbolic positions, coefficients, radii, parameters and
cutoff; z3 compares every atom's energy with one third of the sum over the
triples it belongs to of s9 C9 (3 cosA cosB cosC + 1)/(rAB rBC rCA)^3 fdamp,
where a triple counts only if all three distances are within the cutoff.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr", "0.5 <= C9 <= 5000, 2 <= radii <= 8"]


def triple(ctx, r2, r0, c9, s9, alp, cut):
    ab, bc, ca = r2
    one = ctx.lit(1)
    sab, sbc, sca = ctx.sqrt(ab), ctx.sqrt(bc), ctx.sqrt(ca)
    ca_ = (ab + ca - bc) / (2 * sab * sca)
    cb_ = (ab + bc - ca) / (2 * sab * sbc)
    cc_ = (ca + bc - ab) / (2 * sca * sbc)
    rr = sab * sbc * sca
    f = one / (one + 6 * (r0[0] * r0[1] * r0[2] / rr) ** (alp / 3))
    e = s9 * c9 * (3 * ca_ * cb_ * cc_ + 1) / rr**3 * f
    ok = ctx.le(sab, cut) & ctx.le(sbc, cut) & ctx.le(sca, cut)
    return ctx.ite(ok, e, 0)


def expected(ctx, Z, pos, rad, c9, s9, alp, cut):
    n = len(Z)
    d2 = {}
    for i in range(n):
        for j in range(i + 1, n):
            d2[i, j] = d2[j, i] = ctx.dist2(pos[i], pos[j])
    out = [ctx.lit(0) for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                if not (Z[i] and Z[j] and Z[k]):
                    continue
                e = triple(
                    ctx, (d2[i, j], d2[j, k], d2[i, k]), (rad(i, j), rad(j, k), rad(i, k)), c9(i, j, k), s9, alp, cut
                )
                for m in (i, j, k):
                    out[m] = out[m] + e / 3
    return out


def law(ctx, cfg):
    from tad_dftd4.dispersion.threebody import get_atm_dispersion

    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    p = C.params(ctx, ["s9", "alp"], cfg.get("fixed"), cfg.get("far"))
    box = cfg.get("box", C.far(cfg, "box", 6.0))
    cut = ctx.real("cut", 1, 40 if box == 6.0 else 400)
    pos, rad, c9, want = [], [], [], []
    for b in range(nb):
        pos.append(ctx.positions(f"p{b}", n, box=box, coords=C.grid(n) if cfg.get("wide") else None))
        rad.append(C.sym_matrix(ctx, f"r0{b}", n, *C.far(cfg, "rvdw", (2, 8))))
        t = {}
        for i in range(n):
            for j in range(i, n):
                for k in range(j, n):
                    t[i, j, k] = ctx.real(f"c9{b}_{i}_{j}_{k}", *C.far(cfg, "c9", (0.5, 5000)))
        c9.append([[[t[tuple(sorted((i, j, k)))] for k in range(n)] for j in range(n)] for i in range(n)])
        want.append(
            expected(
                ctx, sysm[b], pos[b], lambda i, j: rad[b][i][j], lambda i, j, k: t[i, j, k], p["s9"], p["alp"], cut
            )
        )
    num = torch.tensor(sysm)
    lead = cfg.get("lead")
    a = [num, ctx.tensor(pos), ctx.tensor(c9), ctx.tensor(rad)]
    if lead is not None:
        a = [x.reshape(*lead, *x.shape[1:]) for x in a]
    kw = {}
    if cfg.get("defaults"):
        pass
    else:
        kw = dict(s9=ctx.tensor(p["s9"]), alp=ctx.tensor(p["alp"]))
    e = get_atm_dispersion(*a, cutoff=ctx.tensor(cut), **kw)
    ctx.check_bool("shape", tuple(e.shape) == ((nb, n) if lead is None else (*lead, n)))
    ctx.check_eq("three-body energy", e.reshape(-1), [x for w in want for x in w])


def big(ctx, cfg):
    """Many atoms: only s9 is a symbol."""
    from tad_dftd4.dispersion.threebody import get_atm_dispersion

    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    s9 = ctx.real("s9", 0, 2)
    alp, cut = 14.0, cfg.get("cutv", 40.0)
    g = [[[x + 0.25 * b for x in r] for r in C.grid(n, cfg.get("a", 4.1))] for b in range(nb)]
    pos = torch.tensor(g, dtype=C.DT)
    d = (pos.unsqueeze(-2) - pos.unsqueeze(-3)).norm(dim=-1)
    u = torch.tensor([[1.5 + math.sin(1.0 + i + b) for i in range(n)] for b in range(nb)], dtype=C.DT)
    c9 = 7 * u[:, :, None, None] * u[:, None, :, None] * u[:, None, None, :]
    rad = 4 + u[:, :, None] * u[:, None, :] / 3
    lead = cfg.get("lead", [nb])
    a = [x.reshape(*lead, *x.shape[1:]) for x in (torch.tensor(sysm), pos, c9, rad)]
    e = get_atm_dispersion(*a, cutoff=torch.tensor(cut, dtype=C.DT), s9=ctx.tensor(s9), alp=torch.tensor(alp, dtype=C.DT))
    ctx.check_bool("shape", tuple(e.shape) == (*lead, n))
    want = []
    for b in range(nb):
        z = sysm[b]
        ev = [0.0] * n
        D, R, K = d[b].tolist(), rad[b].tolist(), c9[b].tolist()
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(j + 1, n):
                    ab, bc, ca = D[i][j], D[j][k], D[i][k]
                    if not (z[i] and z[j] and z[k]) or max(ab, bc, ca) > cut:
                        continue
                    m = ab * bc * ca
                    s, t, v = ab * ab, bc * bc, ca * ca
                    ang = 0.375 * (s + t - v) * (s + v - t) * (t + v - s) / (m * m) + 1
                    x = K[i][j][k] * ang / m**3 / (1 + 6 * (R[i][j] * R[j][k] * R[i][k] / m) ** (alp / 3)) / 3
                    for q in (i, j, k):
                        ev[q] += x
        want += [s9 * ctx.lit(x) for x in ev]
    ctx.check_eq("three-body energy", e.reshape(-1), want)


def term(ctx, cfg):
    """C9 and radii of the registered terms, through Disp.calculate."""
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion import d3, d4
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.damping import ZeroDamping
    from tad_dftd4.model import D4Model

    Z = cfg["Z"]
    n = len(Z)
    num = torch.tensor(Z)
    pos = ctx.positions("p", n, box=C.far(cfg, "box", 6.0), coords=C.grid(n) if cfg.get("grid") else None)
    names = ["s9", "alp", "a1", "a2"] if cfg["term"] != "d3" else ["s9", "alp", "rs9"]
    p = C.params(ctx, [k for k in names if k not in cfg.get("omit", [])], cfg.get("fixed"), cfg.get("far"))
    full = dict(a1=ctx.lit(0.4), a2=ctx.lit(5), s9=ctx.lit(1), alp=ctx.lit(16), rs9=ctx.lit(1))
    full.update(p)
    cut = ctx.real("cut", 1, 40)
    q = [ctx.real(f"q{i}", -0.5, 0.5) if i < cfg.get("nq", 0) else ctx.lit([0.13, -0.21, 0.3, -0.4][i]) for i in range(n)]
    cn = [ctx.lit(v) for v in cfg.get("cn", [0.9, 1.7, 0.4, 2.8])[:n]]
    dep = cfg.get("charge_dependent", False)
    CN = ctx.tensor(cn)
    kw = {}
    if cfg["term"] != "exact":
        rc = [[[[ctx.lit(0)] * 7 for _ in range(7)] for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                v = ctx.real(f"rc_{i}_{j}", 1, 400)
                if [i, j] in cfg.get("neg", []):
                    v = -v
                rc[i][j][0][0] = v
                rc[j][i][0][0] = v
        kw["rc6"] = ctx.tensor(rc)
    model = D4Model(num, dtype=C.DT, **kw)
    disp = Disp(model=model, cn_fn=lambda numbers, positions: CN, dtype=C.DT)
    cls = {"approx": d4.D4ATMApprox, "exact": d4.D4ATMExact, "d3": d3.D3ATM}[cfg["term"]]
    disp.register(cls(damping_fn=ZeroDamping(), charge_dependent=dep))
    rr = ctx.reals("rr", n, *C.far(cfg, "r4r2", (1, 10)))
    rv = C.sym_matrix(ctx, "rv", n, *C.far(cfg, "rvdw", (2, 8)))
    e = disp.calculate(
        num, ctx.tensor(pos), 0.0, C.tparams(ctx, p), cutoff=Cutoff(disp3=ctx.tensor(cut), dtype=C.DT),
        r4r2=ctx.tensor(rr), rvdw=ctx.tensor(rv), **(dict(q=ctx.tensor(q)) if dep else {}),
    )
    w = [C.weights(ctx, Z[i], cn[i], q[i] if dep else ctx.lit(0)) for i in range(n)]
    if cfg["term"] == "exact":
        import mpmath as mp

        al = [C.ref_alpha(z) for z in Z]

        def pol(i, x):
            return ctx.sum([w[i][r] * al[i][r][x] for r in range(7) if al[i][r][x] != 0])

        pols = [[pol(i, x) for x in range(23)] for i in range(n)]

        def c9(i, j, k):
            return ctx.sum([pols[i][x] * pols[j][x] * pols[k][x] * (3 / mp.pi * mp.mpf(C.W23[x])) for x in range(23)])
    else:

        def c6(i, j):
            return ctx.lit(1) * rc[i][j][0][0] * w[i][0] * w[j][0]

        def c9(i, j, k):
            x = c6(i, j) * c6(i, k) * c6(j, k)
            odd = sum(sorted(p) in cfg.get("neg", []) for p in ((i, j), (i, k), (j, k))) % 2
            return ctx.sqrt(-x if odd else x)

    def rad(i, j):
        if cfg["term"] == "d3":
            return full["rs9"] * rv[i][j]
        return full["a1"] * ctx.sqrt(3 * rr[i] * rr[j]) + full["a2"]

    ctx.check_eq("ATM term", e, expected(ctx, Z, pos, rad, c9, full["s9"], full["alp"], cut))


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    f = {"alp": 16}
    add("law", Z=[[6, 1, 8]], lead=[])
    add("law", Z=[[6, 1, 8]], lead=[], fixed=f)
    add("law", Z=[[6, 1, 8]], lead=[], fixed={"alp": 14})
    add("law", Z=[[6, 1]], lead=[])
    add("law", Z=[[6]], lead=[])
    add("law", Z=[[6, 1, 8]], lead=[], defaults=True, fixed={"alp": 16, "s9": 1})
    add("law", Z=[[6, 0, 8, 1]], lead=[], fixed=f)
    add("law", Z=[[6, 6, 8, 1]], lead=[], fixed=f)
    add("law", Z=[[6, 1, 8], [7, 1, 0]], fixed=f)
    add("law", Z=[[6, 1, 8], [7, 1, 0], [2, 2, 2], [103, 87, 1]], lead=[2, 2], fixed=f)
    add("law", Z=[[1, 2, 3, 4, 5, 6]], lead=[], wide=True, fixed=f)
    add("term", Z=[2, 2, 10], term="approx", fixed=f)
    add("term", Z=[10, 2, 18], term="approx", charge_dependent=True)
    add("term", Z=[2, 2, 10], term="approx", fixed={"s9": 1, "alp": 16, "a1": 0.4, "a2": 5}, omit=["s9", "alp", "a1", "a2"])
    add("term", Z=[10, 2, 18], term="approx", charge_dependent=True, nq=1, grid=True, fixed=f)
    add("term", Z=[10, 2, 18], term="approx", charge_dependent=True, nq=3, fixed=f)
    add("term", Z=[2, 0, 10, 18], term="approx", fixed=f)
    add("term", Z=[2, 36, 10], term="d3", fixed=f)
    add("term", Z=[2, 2, 10], term="exact", fixed=f)
    add("term", Z=[2, 10, 10], term="exact", charge_dependent=True, fixed=f)
    add("term", Z=[2, 10, 10], term="exact", charge_dependent=True, nq=1, grid=True, fixed=f)
    add("term", Z=[2, 10, 10], term="exact", charge_dependent=True, nq=3, fixed=f)
    add("term", Z=[6, 8, 1], term="exact", fixed=f)
    for box in (30.0, 100.0):
        add("law", Z=[[6, 1, 8]], lead=[], fixed=f, box=box)
        add("law", Z=[[6, 1, 8]], lead=[], box=box)
        add("law", Z=[[6, 1, 8], [7, 1, 0]], fixed=f, box=box)
    add("law", Z=[[6, 1, 8]], lead=[], far=True)
    add("law", Z=[[6, 1, 8]], lead=[], far=True, fixed=f)
    add("law", Z=[[6, 1, 8], [7, 1, 0]], fixed=f, far=True)
    add("term", Z=[2, 2, 10], term="approx", fixed=f, far=True)
    add("term", Z=[10, 2, 18], term="approx", charge_dependent=True, far=True)
    add("term", Z=[2, 36, 10], term="d3", fixed=f, far=True)
    # user-supplied reference coefficients of either sign
    add("term", Z=[2, 2, 10], term="approx", fixed=f, neg=[[0, 1]], grid=True)
    add("term", Z=[10, 2, 18], term="approx", fixed=f, neg=[[0, 1], [1, 2]], grid=True)
    add("term", Z=[2, 36, 10], term="d3", fixed=f, neg=[[0, 2]], grid=True)
    many = lambda ns, n: [[(13 * i + 7 * b) % 100 + 1 if i < m else 0 for i in range(n)] for b, m in enumerate(ns)]  # noqa: E731
    for c in (9.5, 40.0):
        add("big", Z=many([17], 17), cutv=c)
        add("big", Z=many([3], 3), cutv=4 * c, a=25.0)
        add("big", Z=many([12], 12), cutv=4 * c, a=25.0)
        add("big", Z=many([12], 12), cutv=4 * c, a=60.0)
        add("big", Z=many([40], 40), cutv=c)
        add("big", Z=many([34, 5, 21], 35), cutv=c)
        add("big", Z=many([3 + b % 4 for b in range(70)], 6), cutv=c)
    for k, (lead, zs) in enumerate(C.patterns()):
        add("big", Z=zs, lead=lead, cutv=(40.0, 7.0)[k % 2])
    if tier == "thorough":
        add("big", Z=many([70], 70))
        add("law", Z=[[6, 1, 8, 7, 9]], lead=[], fixed=f)
        add("law", Z=[[6, 1, 8, 7]], lead=[])
        add("law", Z=[[6, 1, 8, 0, 9], [1, 0, 0, 0, 0], [1, 1, 1, 1, 1]], fixed=f)
        add("law", Z=[list(range(1, 11))], lead=[], wide=True, fixed=f)
        add("term", Z=[1, 1, 1], term="exact", fixed=f)
        add("term", Z=[18, 2, 10, 36], term="approx")
    return J
