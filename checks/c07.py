"""C07: polarizabilities and C6 coefficients (Casimir-Polder)."""

import torch

from . import common as C

EXPLANATION = """
With arbitrary (symbolic) reference weights the C6 matrix, the weighted and the
static polarizabilities of every element are linear/bilinear forms; z3 compares
them with the forms built from the reference data and the 23-point quadrature
(trapezoid weights recomputed from the frequency grid).  The quadrature helpers
run on symbolic polarizabilities; C6 is shown symmetric and positive.
"""
ASSUMPTIONS = ["0 <= weights <= 3, 0 <= polarizabilities <= 100"]


def forms(ctx, cfg):
    from tad_dftd4.model import D4Model

    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb])
    kw = cfg.get("kw", {})
    num = torch.tensor(sysm).reshape(*lead, n)
    m = D4Model(num, dtype=C.DT, **kw)
    o = dict(ga=kw.get("ga", 3.0), gc=kw.get("gc", 2.0), ref=kw.get("ref_charges", "eeq"))
    g = [[[ctx.real(f"w{b}_{i}_{r}", 0, 3) for r in range(7)] for i in range(n)] for b in range(nb)]
    G = ctx.tensor(g).reshape(*lead, n, 7)
    stat, pol = m.get_polarizabilities(G), m.get_weighted_pols(G)
    ctx.check_bool("shapes", tuple(stat.shape) == (*lead, n) and tuple(pol.shape) == (*lead, n, 23))
    ws, wp = [], []
    for b in range(nb):
        for i, z in enumerate(sysm[b]):
            al = C.ref_alpha(z, **o)
            for x in range(23):
                v = ctx.sum([g[b][i][r] * al[r][x] for r in range(7) if al[r][x] != 0]) if z else ctx.lit(0)
                wp.append(v)
                if x == 0:
                    ws.append(v)
    ctx.check_eq("static polarizabilities", stat.reshape(-1), ws)
    ctx.check_eq("weighted polarizabilities", pol.reshape(-1), wp)
    if cfg.get("c6", True):
        c6 = m.get_atomic_c6(G)
        want = []
        for b in range(nb):
            Z = sysm[b]
            for i in range(n):
                for j in range(n):
                    want.append(C.atomic_c6(ctx, Z[i], Z[j], g[b][i], g[b][j], **o) if Z[i] and Z[j] else ctx.lit(0))
        ctx.check_bool("shape", tuple(c6.shape) == (*lead, n, n))
        ctx.check_eq("C6", c6.reshape(-1), want)


def quad(ctx, cfg):
    from tad_dftd4.utils import trapzd, trapzd_atm, trapzd_noref
    import mpmath as mp

    n, nr = cfg["n"], cfg.get("nref", 2)
    W = [mp.mpf(3) / mp.pi * mp.mpf(x) for x in C.freq_weights()]
    two = cfg.get("two", False)
    kind = cfg["kind"]
    if kind == "trapzd":
        a = [[[ctx.real(f"a{i}_{r}_{x}", 0, 100) for x in range(23)] for r in range(nr)] for i in range(n)]
        b = [[[ctx.real(f"b{i}_{r}_{x}", 0, 100) for x in range(23)] for r in range(nr)] for i in range(n)] if two else a
        got = trapzd(ctx.tensor(a), ctx.tensor(b)) if two else trapzd(ctx.tensor(a))
        ctx.check_bool("shape", tuple(got.shape) == (n, n, nr, nr))
        want = [
            ctx.sum([a[i][r][x] * b[j][s][x] * W[x] for x in range(23)])
            for i in range(n) for j in range(n) for r in range(nr) for s in range(nr)
        ]
    elif kind == "noref":
        a = [[ctx.real(f"a{i}_{x}", 0, 100) for x in range(23)] for i in range(n)]
        b = [[ctx.real(f"b{i}_{x}", 0, 100) for x in range(23)] for i in range(n)] if two else a
        got = trapzd_noref(ctx.tensor(a), ctx.tensor(b)) if two else trapzd_noref(ctx.tensor(a))
        want = [ctx.sum([a[i][x] * b[j][x] * W[x] for x in range(23)]) for i in range(n) for j in range(n)]
    else:
        a = [[[[ctx.real(f"a{i}_{j}_{k}_{x}", 0, 100) for x in range(23)] for k in range(n)] for j in range(n)] for i in range(n)]
        got = trapzd_atm(ctx.tensor(a))
        want = [ctx.sum([a[i][j][k][x] * W[x] for x in range(23)]) for i in range(n) for j in range(n) for k in range(n)]
    ctx.check_eq("quadrature", got.reshape(-1), want, tol=1e-8)


def quad_big(ctx, cfg):
    """The quadrature helpers and C9 on larger systems: one symbol per system.

    The helpers are (multi)linear, so scaling the polarizabilities by a symbol
    scales the result by its power."""
    from tad_dftd4.utils import trapzd, trapzd_atm, trapzd_noref
    import math

    import numpy as np

    n, kind = cfg["n"], cfg["kind"]
    lead = cfg.get("lead", [])
    s = ctx.real("s", 0.1, 3)
    W = np.array(C.freq_weights()) * 3 / math.pi
    tot = int(np.prod(lead)) if lead else 1
    shp = {"trapzd": (n, cfg.get("nref", 7), 23), "noref": (n, 23), "atm": (n, n, n, 23)}[kind]
    size = tot * int(np.prod(shp))
    a = (1.5 + np.sin(0.37 * np.arange(size) + 0.2)).reshape(tot, *shp)
    A = ctx.tensor(s) * torch.tensor(a, dtype=C.DT).reshape(*lead, *shp)
    fn = {"trapzd": trapzd, "noref": trapzd_noref, "atm": trapzd_atm}[kind]
    if cfg.get("two"):
        b = (1.5 + np.cos(0.41 * np.arange(size) + 0.1)).reshape(tot, *shp)
        got = fn(A, torch.tensor(b, dtype=C.DT).reshape(*lead, *shp))
    else:
        b = a
        got = fn(A)
    if kind == "trapzd":
        w = np.einsum("zirw,zjsw,w->zijrs", a, b, W)
    elif kind == "noref":
        w = np.einsum("ziw,zjw,w->zij", a, b, W)
    else:
        w = np.einsum("zijkw,w->zijk", a, W)
    ctx.check_bool("shape", tuple(got.shape) == (*lead, *w.shape[1:]))
    k = s if cfg.get("two") or kind == "atm" else s * s
    ctx.check_eq("quadrature", got.reshape(-1), [k * ctx.lit(float(v)) for v in w.reshape(-1)], tol=1e-8)


def c6_big(ctx, cfg):
    """C6 and polarizabilities of larger systems from given weights."""
    import numpy as np
    from tad_dftd4.model import D4Model

    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb])
    s = ctx.real("s", 0.1, 2)
    g = np.array([[[abs(np.sin(1 + 3 * b + 1.7 * i + r)) for r in range(7)] for i in range(n)] for b in range(nb)])
    m = D4Model(torch.tensor(sysm).reshape(*lead, n), dtype=C.DT)
    G = ctx.tensor(s) * torch.tensor(g, dtype=C.DT).reshape(*lead, n, 7)
    al = {z: np.array([[float(x) for x in r] for r in C.ref_alpha(z)]) if z else np.zeros((7, 23)) for z in {x for r in sysm for x in r}}
    W = np.array(C.freq_weights()) * 3 / np.pi
    pol = np.array([[g[b, i] @ al[sysm[b][i]] for i in range(n)] for b in range(nb)])
    c6 = np.einsum("ziw,zjw,w->zij", pol, pol, W)
    ctx.check_eq("static polarizabilities", m.get_polarizabilities(G).reshape(-1), [s * ctx.lit(float(v)) for v in pol[..., 0].reshape(-1)])
    ctx.check_eq("weighted polarizabilities", m.get_weighted_pols(G).reshape(-1), [s * ctx.lit(float(v)) for v in pol.reshape(-1)])
    ctx.check_eq("C6", m.get_atomic_c6(G).reshape(-1), [s * s * ctx.lit(float(v)) for v in c6.reshape(-1)], tol=1e-8)


def positive(ctx, cfg):
    """C6 of real atoms is symmetric, and positive for usable weights."""
    from tad_dftd4.model import D4Model

    Z = cfg["Z"]
    n = len(Z)
    m = D4Model(torch.tensor(Z), dtype=C.DT)
    cn = [ctx.real(f"cn{i}", 0, 8) for i in range(n)]
    q = [ctx.real(f"q{i}", -0.5, 0.8) for i in range(n)]
    c6 = m.get_atomic_c6(m.weight_references(ctx.tensor(cn), ctx.tensor(q)))
    e = ctx.entries(c6)
    for i in range(n):
        for j in range(i, n):
            if Z[i] and Z[j]:
                ctx.check("C6 > 0", ctx.lt(0, e[i * n + j]))
            else:
                ctx.check_eq("padding", [e[i * n + j]], [ctx.lit(0)])
    ctx.check_eq("symmetry", c6, c6.transpose(-1, -2))


def coefficients(ctx, cfg):
    """C6 from CN and charges end to end."""
    from tad_dftd4.model import D4Model

    Z = cfg["Z"]
    n = len(Z)
    ref = cfg.get("ref", "eeq")
    m = D4Model(torch.tensor(Z), dtype=C.DT, ref_charges=ref)
    cn = [ctx.real(f"cn{i}", 0, 8) for i in range(n)]
    q = [ctx.real(f"q{i}", -0.5, 0.8) for i in range(n)]
    w = m.weight_references(ctx.tensor(cn), ctx.tensor(q))
    W = [C.weights(ctx, z, cn[i], q[i], ref=ref) if z else [ctx.lit(0)] * 7 for i, z in enumerate(Z)]
    want = [C.atomic_c6(ctx, Z[i], Z[j], W[i], W[j], ref=ref) if Z[i] and Z[j] else ctx.lit(0) for i in range(n) for j in range(n)]
    ctx.check_eq("C6", m.get_atomic_c6(w).reshape(-1), want)


def given_rc6(ctx, cfg):
    """Reference C6 handed to the model are the ones used."""
    from tad_dftd4.model import D4Model, D4SModel

    Z = cfg["Z"]
    n = len(Z)
    rc = [[[[ctx.real(f"rc{i}_{j}_{r}_{s}", 0, 100) for s in range(7)] for r in range(7)] for j in range(n)] for i in range(n)]
    cls = D4Model if cfg["model"] == "d4" else D4SModel
    m = cls(torch.tensor(Z), rc6=ctx.tensor(rc), dtype=C.DT)
    if cfg["model"] == "d4":
        g = [[ctx.real(f"g{i}_{r}", 0, 2) for r in range(7)] for i in range(n)]
        want = [ctx.sum([rc[i][j][r][s] * g[i][r] * g[j][s] for r in range(7) for s in range(7)]) for i in range(n) for j in range(n)]
    else:
        g = [[[ctx.real(f"g{i}_{j}_{r}", 0, 2) for r in range(7)] for j in range(n)] for i in range(n)]
        want = [ctx.sum([rc[i][j][r][s] * g[j][i][r] * g[i][j][s] for r in range(7) for s in range(7)]) for i in range(n) for j in range(n)]
    ctx.check_eq("C6", m.get_atomic_c6(ctx.tensor(g)).reshape(-1), want)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    for a in range(1, 104, 21):
        add("forms", Z=[list(range(a, min(a + 21, 104)))], lead=[], c6=False)
    for a in range(1, 87, 29):
        add("forms", Z=[list(range(a, min(a + 29, 87)))], lead=[], c6=False, kw=dict(ref_charges="gfn2"))
    for a in (1, 20, 50, 78, 99):
        add("forms", Z=[list(range(a, a + 5))], lead=[])
    add("forms", Z=[[1, 104 - 60, 17, 92]], lead=[])
    add("forms", Z=[[6, 8, 26]], lead=[], kw=dict(ref_charges="gfn2"))
    add("forms", Z=[[6, 8, 26, 3]], lead=[], kw=dict(ga=2.0, gc=1.5))
    add("forms", Z=[[6, 0, 8], [1, 3, 0], [0, 0, 2]])
    add("forms", Z=[[6, 8], [1, 0], [9, 9], [26, 92]], lead=[2, 2])
    add("forms", Z=[[6]], lead=[])
    for kind in ("trapzd", "noref", "atm"):
        for two in (False, True):
            if not (kind == "atm" and two):
                add("quad", kind=kind, n=2, two=two)
    add("quad", kind="trapzd", n=3, nref=1)
    for n in (1, 3, 7, 9, 17, 23):
        add("quad_big", kind="noref", n=n)
        add("quad_big", kind="noref", n=n, two=True)
        add("quad_big", kind="trapzd", n=n)
        add("quad_big", kind="trapzd", n=n, nref=3, two=True)
    for n in (1, 3, 7, 9, 12):
        add("quad_big", kind="atm", n=n)
    for kind in ("trapzd", "noref", "atm"):
        add("quad_big", kind=kind, n=3, lead=[3])
        add("quad_big", kind=kind, n=4, lead=[2, 3])
    many = lambda ns, n: [[(13 * i + 7 * b) % 100 + 1 if i < m else 0 for i in range(n)] for b, m in enumerate(ns)]  # noqa: E731
    add("c6_big", Z=many([23], 23), lead=[])
    add("c6_big", Z=many([7, 3, 5, 7, 1, 2, 6], 7))
    add("c6_big", Z=many([40], 40), lead=[])
    add("c6_big", Z=many([3, 2, 3, 1, 3, 3], 3), lead=[2, 3])
    add("positive", Z=[1, 6, 0])
    add("positive", Z=[8, 26])
    add("coefficients", Z=[1, 7, 2])
    add("coefficients", Z=[6, 0, 8])
    add("coefficients", Z=[17, 92], ref="eeq")
    add("coefficients", Z=[14, 3], ref="gfn2")
    add("given_rc6", Z=[6, 1], model="d4")
    add("given_rc6", Z=[6, 1], model="d4s")
    if tier == "thorough":
        for a in range(1, 104, 5):
            add("forms", Z=[list(range(a, min(a + 5, 104)))], lead=[])
            add("forms", Z=[[a, 104 - a, (a * 37) % 103 + 1, (a * 59) % 103 + 1]], lead=[])
            add("coefficients", Z=[a, (a * 37) % 103 + 1])
        for a in range(1, 87, 5):
            add("forms", Z=[list(range(a, min(a + 5, 87)))], lead=[], kw=dict(ref_charges="gfn2"))
        for a in range(1, 104, 3):
            add("positive", Z=[a, (a * 53) % 103 + 1])
    return J
