"""Shared input builders and oracles (written from the published formulas)."""

from __future__ import annotations

import math

import torch

DT = torch.float64


def sym_matrix(ctx, name, n, lo, hi):
    m = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            m[i][j] = m[j][i] = ctx.real(f"{name}_{i}_{j}", lo, hi)
    return m


def grid(n, a=4.1, jig=0.37):
    """Fixed, irregular, well separated coordinates."""
    out = []
    s = math.ceil(n ** (1 / 3))
    for k in range(n):
        x, y, z = k % s, (k // s) % s, k // (s * s)
        out.append(
            [
                round(a * x + jig * math.sin(1.3 * k + 0.1), 3),
                round(a * y + jig * math.cos(2.1 * k), 3),
                round(a * z + jig * math.sin(0.7 * k + 1.0), 3),
            ]
        )
    return out


# ---------------------------------------------------------------- damping

PARAMS = {
    # parameter: (lo, hi)
    "a1": (0.01, 1),
    "a2": (0.1, 7),
    "s6": (0, 2),
    "s8": (-1, 3),
    "s9": (0, 2),
    "s10": (-1, 2),
    "rs6": (0.5, 2),
    "rs8": (0.5, 2),
    "rs9": (0.5, 2),
    "alp": (6, 18),
    "bet": (0, 2),
}

FAR = {
    # the same beyond everyday values
    "a1": (0, 5),
    "a2": (0.01, 30),
    "s6": (-3, 10),
    "s8": (-5, 12),
    "s9": (-3, 10),
    "s10": (-5, 12),
    "rs6": (0.05, 6),
    "rs8": (0.05, 6),
    "rs9": (0.05, 6),
    "alp": (1, 40),
    "bet": (0, 6),
    "box": 60.0,
    "c6": (1e-3, 2e5),
    "c9": (-1e4, 1e7),
    "r4r2": (0.1, 60),
    "rvdw": (0.2, 25),
    "q": (-0.9, 4),
    "charge": (-9, 9),
    "cut": (0, 500),
}


def far(cfg, key, default):
    """The wide range of an input if the job asks for it."""
    return FAR[key] if cfg.get("far") else default


NEEDS = {
    "rational": ("a1", "a2"),
    "zero": ("rs6", "rs8", "alp"),
    "mzero": ("rs6", "rs8", "alp", "bet"),
    "op": ("a1", "a2", "bet"),
    "user": ("a1", "a2"),
    "userv": ("rs6", "rs8"),
}


def user_damping(kind):
    """Damping functions as a user would write them."""
    from tad_dftd4.damping import functions as f

    if kind == "user":

        class Shifted(f.Damping):
            radius_type = "r4r2"

            def _f(self, distances, radii, order, *, a1=None, a2=None, **_):
                return 1.0 / (distances**order + a1 * radii + a2)

        return Shifted()

    class Ratio(f.Damping):
        radius_type = "rvdw"
        REQUIRED_BY_ORDER = {6: ("rs6",), 8: ("rs8",)}

        def _f(self, distances, radii, order, *, rs6=None, rs8=None, only_damping=False, **_):
            g = distances / (distances + (rs6 if order == 6 else rs8) * radii)
            return g if only_damping else g / distances**order

    return Ratio()


def damping(kind):
    from tad_dftd4.damping import functions as f

    if kind in ("user", "userv"):
        return user_damping(kind)
    return {
        "rational": f.RationalDamping,
        "zero": f.ZeroDamping,
        "mzero": f.MZeroDamping,
        "op": f.OptimisedPowerDamping,
    }[kind]()


def radius_type(kind):
    return "r4r2" if kind in ("rational", "op", "user") else "rvdw"


def damp(ctx, kind, n, r, rad, p):
    """Damped 1/r^n of the published forms; rad: qq=3*r4r2*r4r2 or R0."""
    one = ctx.lit(1)
    if kind == "rational":
        r0 = p["a1"] * ctx.sqrt(rad) + p["a2"]
        return one / (r**n + r0**n)
    if kind == "zero":
        rs, al = (p["rs6"], p["alp"]) if n == 6 else (p["rs8"], p["alp"] + 2)
        return one / (one + 6 * (rs * rad / r) ** al) / r**n
    if kind == "mzero":
        rs, al = (p["rs6"], p["alp"]) if n == 6 else (p["rs8"], p["alp"] + 2)
        t = r / (rs * rad) + p["bet"] * rad
        return one / (one + 6 * t ** (-al)) / r**n
    if kind == "op":
        r0 = p["a1"] * ctx.sqrt(rad) + p["a2"]
        rb, ab = r ** p["bet"], r0 ** p["bet"]
        return rb / (rb * r**n + ab * r0**n)
    if kind == "user":
        return one / (r**n + p["a1"] * rad + p["a2"])
    if kind == "userv":
        return r / (r + (p["rs6"] if n == 6 else p["rs8"]) * rad) / r**n
    raise KeyError(kind)


def params(ctx, names, fixed=None, far=False):
    fixed = fixed or {}
    out = {}
    for k in names:
        out[k] = ctx.lit(fixed[k]) if k in fixed else ctx.real(k, *(FAR if far else PARAMS)[k])
    return out


def tparams(ctx, p, dtype=DT, plain=False):
    return {k: ctx.tensor(v, dtype, plain=plain) for k, v in p.items()}


def pair_energy(ctx, kind, p, c6, qq, rvdw, r, s10=False, s8=True):
    rad = qq if radius_type(kind) == "r4r2" else rvdw
    e = p["s6"] * c6 * damp(ctx, kind, 6, r, rad, p)
    if s8:
        e = e + p["s8"] * c6 * qq * damp(ctx, kind, 8, r, rad, p)
    if s10:
        e = e + p["s10"] * c6 * qq * qq * ctx.lit(49) / 40 * damp(ctx, kind, 10, r, rad, p)
    return e


# ---------------------------------------------------------------- D4 model


def tables(ref="eeq"):
    """The published reference data (pinned copy in data/tables.npz)."""
    if ref not in _T:
        import os

        import numpy as np

        z = np.load(os.path.join(os.path.dirname(__file__), "..", "data", "tables.npz"))
        d = {k: z[k].tolist() for k in z.files if not k.startswith(("q_", "sq_"))}
        for r in ("eeq", "gfn2"):
            _T[r] = dict(d, q=z[f"q_{r}"].tolist(), sq=z[f"sq_{r}"].tolist())
    return _T[ref]


_T: dict = {}

W23 = (
    [2.49995e-2, 4.99995e-2, 7.5e-2] + [0.1] * 8 + [0.15] + [0.2] * 4 + [0.35, 0.5, 0.75, 1.0, 1.75, 2.5, 1.25]
)
"""Trapezoid weights of the 23-point frequency grid."""


def freq_weights():
    """The same weights from the grid itself (trapezoid rule)."""
    g = [1e-6, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.2, 1.4, 1.6, 1.8, 2.0, 2.5, 3.0, 4.0, 5.0, 7.5, 10.0]
    n = len(g)
    return [0.5 * (g[min(i + 1, n - 1)] - g[max(i - 1, 0)]) for i in range(n)]


def zeta(ctx, ga, gam, qref, qmod):
    """Charge scaling exp(ga (1 - exp(gam (1 - qref/qmod)))), exp(ga) for qmod <= 0."""
    inner = ctx.exp(gam * (1 - qref / qmod))
    v = ctx.exp(ga * (1 - inner))
    return ctx.ite(ctx.le(qmod, 0), ctx.exp(ctx.lit(ga)), v)


def gauss(ctx, Z, cn, wf, T):
    """Unnormalised Gaussian weights of the references of element Z."""
    out = []
    for r in range(7):
        ng = T["refc"][Z][r]
        if ng == 0:
            out.append(None)
            continue
        d = cn - T["cn"][Z][r]
        out.append(ctx.sum([ctx.exp(-(k * wf) * d * d) for k in range(1, ng + 1)]))
    return out


def weights(ctx, Z, cn, q, wf=6.0, ga=3.0, gc=2.0, ref="eeq"):
    """Reference weights zeta * gw of one atom (7 entries)."""
    T = tables(ref)
    g = gauss(ctx, Z, cn, ctx.lit(wf) if isinstance(wf, (int, float)) else wf, T)
    present = [x for x in g if x is not None]
    out = []
    if not present:
        return [ctx.lit(0)] * 7
    norm = ctx.sum(present)
    ze = T["zeff"][Z]
    for r in range(7):
        if g[r] is None:
            out.append(ctx.lit(0))
            continue
        z = zeta(ctx, ctx.lit(ga), ctx.lit(T["gam"][Z]) * gc, ctx.lit(T["q"][Z][r]) + ze, q + ze)
        out.append(z * g[r] / norm)
    return out


def ref_alpha(Z, ga=3.0, gc=2.0, ref="eeq"):
    """Reference polarizabilities alpha[r][w] (constants)."""
    k = (Z, ga, gc, ref)
    if k in _A:
        return _A[k]
    import mpmath as mp

    T = tables(ref)
    out = []
    for r in range(7):
        s = T["sys"][Z][r]
        row = []
        if s > 0:
            ze = T["zeff"][s]
            qm = mp.mpf(T["sq"][Z][r]) + ze
            z = (
                mp.exp(ga * (1 - mp.exp(mp.mpf(T["gam"][s]) * gc * (1 - mp.mpf(ze) / qm))))
                if qm > 0
                else mp.exp(ga)
            )
        else:
            z = mp.mpf(0)
        for w in range(23):
            a = T["ascale"][Z][r] * (
                mp.mpf(T["alpha"][Z][r][w]) - T["scount"][Z][r] * T["secscale"][s] * mp.mpf(T["secalpha"][s][w]) * z
            )
            row.append(a if a > 0 else mp.mpf(0))
        out.append(row)
    _A[k] = out
    return out


_A: dict = {}


def ref_c6(Zi, Zj, **kw):
    """Casimir-Polder reference C6 (7x7 constants)."""
    import mpmath as mp

    a, b = ref_alpha(Zi, **kw), ref_alpha(Zj, **kw)
    return [
        [3 / mp.pi * sum(mp.mpf(W23[w]) * a[r][w] * b[s][w] for w in range(23)) for s in range(7)]
        for r in range(7)
    ]


def given_rc6(ctx, sysm, lead, scale, **kw):
    """Reference C6 coefficients as a user hands them in: scaled published ones."""
    n = len(sysm[0])
    v = [[[[[scale * x if x else ctx.lit(0) for x in row] for row in ref_c6(a, b, **kw)] if a and b else [[ctx.lit(0)] * 7] * 7 for b in s] for a in s] for s in sysm]
    return ctx.tensor(v).reshape(*lead, n, n, 7, 7)


def atomic_c6(ctx, Zi, Zj, wi, wj, **kw):
    rc = ref_c6(Zi, Zj, **kw)
    t = []
    for r in range(7):
        for s in range(7):
            if rc[r][s] != 0:
                t.append(ctx.lit(1) * rc[r][s] * wi[r] * wj[s])
    return ctx.sum(t)


# ---------------------------------------------------------------- full runs




def system(ctx, cfg):
    """Symbolic inputs of a batch of systems."""
    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    S = dict(Z=sysm, pos=[], q=None, r4r2=None, rvdw=None, charge=None)
    for b in range(nb):
        co = None
        if cfg.get("grid"):
            co = [[x + 0.25 * b for x in r] for r in grid(n)]
        elif cfg.get("coords"):
            co = cfg["coords"][b]
        real = [i for i in range(n) if sysm[b][i]]
        rows = ctx.positions(f"p{b}", len(real), box=cfg.get("box", far(cfg, "box", 6.0)), coords=None if co is None else [co[i] for i in real])
        pts = [None] * n
        for i, r in zip(real, rows):
            pts[i] = r
        pad = cfg.get("pad", "zero")
        for i in range(n):
            if pts[i] is None:
                if pad == "sym":
                    pts[i] = [ctx.real(f"pad{b}_{i}{x}", *((-500, 500) if cfg.get("far") else (-9, 9))) for x in "xyz"]
                elif pad == "same" and real:
                    pts[i] = rows[0]
                else:
                    pts[i] = [ctx.lit(0)] * 3
        S["pos"].append(pts)
    if cfg.get("q", "sym") == "sym" and cfg.get("route") != "props":
        S["q"] = [[ctx.real(f"q{b}_{i}", *far(cfg, "q", (-0.5, 0.5))) if sysm[b][i] else ctx.lit(0) for i in range(n)] for b in range(nb)]
    elif cfg.get("q") == "num":
        S["q"] = [[ctx.lit(round(0.4 * math.sin(1.7 * i + b), 2)) if sysm[b][i] else ctx.lit(0) for i in range(n)] for b in range(nb)]
    if cfg.get("padq") and S["q"] is not None:
        # whatever the charges of padding atoms hold
        S["q"] = [[S["q"][b][i] if sysm[b][i] else ctx.real(f"padq{b}_{i}", -1, 1) for i in range(n)] for b in range(nb)]
    if cfg.get("route") == "model":
        # coordination numbers: symbols, numbers or ranges
        cns = cfg.get("cns")
        lim = lambda b, i: (0, 8) if cns is None else cns[b][i]  # noqa: E731
        S["cn"] = [
            [
                (ctx.real(f"cn{b}_{i}", *lim(b, i)) if isinstance(lim(b, i), (tuple, list)) else ctx.lit(lim(b, i))) if sysm[b][i] else ctx.lit(0)
                for i in range(n)
            ]
            for b in range(nb)
        ]
    if cfg.get("flush"):
        ctx.flush()
        ctx.fork_mode()
    if cfg.get("charge"):
        S["charge"] = [ctx.real(f"chg{b}", *far(cfg, "charge", (-2, 2))) for b in range(nb)]
    if cfg.get("overrides"):
        S["r4r2"] = [[ctx.real(f"r42_{b}_{i}", *far(cfg, "r4r2", (1, 10))) for i in range(n)] for b in range(nb)]
        S["rvdw"] = [sym_matrix(ctx, f"rv{b}", n, *far(cfg, "rvdw", (2, 7))) for b in range(nb)]
    kind = cfg.get("damping", "rational")
    names = list(dict.fromkeys((["s6", "s8", "s9", "a1", "a2"] if kind in ("rational", "op", "user") else ["s6", "s8", "s9"]) + list(NEEDS[kind]) + list(cfg.get("plus", ()))))
    fixed = dict(cfg.get("fixed") or {})
    S["par"] = params(ctx, names, fixed, cfg.get("far"))
    if cfg.get("cutoff"):
        S["cut"] = {k: ctx.real(f"cut_{k}", *far(cfg, "cut", (1, 60))) for k in ("disp2", "disp3")}
    else:
        S["cut"] = None
    return S


def evaluate_par(ctx, cfg, S, par):
    """Like evaluate, with a ready parameter dictionary; one result."""
    return evaluate(ctx, cfg, S, par=par)[0]


def evaluate(ctx, cfg, S, par=None, **extra):
    """Run the code under test on a system; list of result tensors."""
    import tad_dftd4 as d4
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    dt = cfg.get("dtype", DT)
    nb, n = len(S["Z"]), len(S["Z"][0])
    lead = cfg.get("lead", [nb])
    T = lambda x, *tail: None if x is None else ctx.tensor(x, dt, plain=cfg.get("plain", False)).reshape([*lead, *tail])  # noqa: E731
    num = torch.tensor(S["Z"]).reshape(*lead, n)
    pos = extra.pop("pos", None)
    if pos is None:
        pos = T(S["pos"], n, 3)
    q, r4, rv = T(S["q"], n), T(S["r4r2"], n), T(S["rvdw"], n, n)
    chg = ctx.tensor([0.0] * nb if S["charge"] is None else S["charge"], dt, plain=cfg.get("plain", False))
    # accepted shapes: (), (nb,) or (..., 1)
    chg = chg.reshape(list(lead) if (not lead or (len(lead) == 1 and nb > 1)) and not cfg.get("col") else [*lead, 1])
    par = tparams(ctx, S["par"], dt, cfg.get("plain", False)) if par is None else par
    cut = None if S["cut"] is None else Cutoff(**{k: ctx.tensor(v, dt) for k, v in S["cut"].items()}, dtype=dt)
    route = cfg.get("route", "dftd4")
    if route == "model":
        return model_quantities(cfg, num, T(S["cn"], n), q)
    if route == "props":
        return list(d4.get_properties(num, pos, chg, **({} if cut is None else {"cutoff": cut})))
    model = cfg.get("model", "d4")
    kw = dict(q=q, r4r2=r4, rvdw=rv, cutoff=cut)
    mk = cfg.get("model_kwargs")
    if mk and cfg.get("instance"):
        from tad_dftd4.model import D4Model, D4SModel

        model = (D4SModel if model == "d4s" else D4Model)(num, dtype=dt, **mk)
    mkw = {"model_kwargs": dict(mk)} if mk and not cfg.get("instance") else {}
    if route == "dftd4":
        return [d4.dftd4(num, pos, chg, par, model=model, damping_function=damping(cfg.get("damping", "rational")), **kw)]
    if route == "disp":
        return [DispD4(model=model, dtype=dt, **mkw).calculate(num, pos, chg, par, **kw)]
    if route == "exact":
        return [DispD4Exact(model=model, dtype=dt, **mkw).calculate(num, pos, chg, par, **kw)]
    if route == "disp2":
        d = Disp(model=model, dtype=dt, **mkw)
        d.register(TwoBodyTerm(damping_fn=damping(cfg.get("damping", "rational"))))
        return [d.calculate(num, pos, chg, par, **kw)]
    raise KeyError(route)


def model_quantities(cfg, num, cn, q):
    """Weights, C6 and polarizabilities as per-atom or per-pair tensors."""
    from tad_dftd4.model import D4Model, D4SModel

    m = (D4SModel if cfg.get("model") == "d4s" else D4Model)(num, dtype=cfg.get("dtype", DT), **cfg.get("model_kwargs", {}))
    gw = m.weight_references(cn, q)
    wp = m.get_weighted_pols(gw)
    out = [gw[..., r] for r in range(7)]
    if cfg.get("model") == "d4s":
        # the partner of a weight is real (padding partners are not used)
        mask = (num != 0).unsqueeze(-1)
        out = [torch.where(mask, x, 0.0 * x) for x in out]
    return out + [m.get_atomic_c6(gw)] + [wp[..., w] for w in (0, 9, 22)] + [m.get_polarizabilities(gw)]


# ---------------------------------------------------------------- end-to-end oracle


def c6_table(ctx, Z, cn, q, model="d4", **kw):
    """C6 of every pair from the published D4 / D4S recipe."""
    n = len(Z)
    real = [i for i in range(n) if Z[i]]
    ref = {k: v for k, v in kw.items() if k in ("ga", "gc", "ref")}
    out = [[ctx.lit(0)] * n for _ in range(n)]
    if model == "d4":
        w = {i: weights(ctx, Z[i], cn[i], q[i], **kw) for i in real}
        for i in real:
            for j in real:
                if j >= i:
                    out[i][j] = out[j][i] = atomic_c6(ctx, Z[i], Z[j], w[i], w[j], **ref)
        return out, w
    T = tables()["wf"]
    w = {}
    for m in real:
        for i in real:
            k = dict(kw)
            k.setdefault("wf", T[Z[i]][Z[m]])
            w[m, i] = weights(ctx, Z[i], cn[i], q[i], **k)
    for i in real:
        for j in real:
            if j >= i:
                out[i][j] = out[j][i] = atomic_c6(ctx, Z[i], Z[j], w[j, i], w[i, j], **ref)
    return out, w


def exact_c9(ctx, Z, w, model="d4", **kw):
    """Casimir-Polder C9 from the weighted polarizabilities."""
    n = len(Z)
    real = [i for i in range(n) if Z[i]]
    pol = {}
    for i in real:
        al = ref_alpha(Z[i], **{k: v for k, v in kw.items() if k in ("ga", "gc", "ref")})
        ws = w[i] if model == "d4" else [ctx.sum([w[m, i][r] for m in real]) / len(real) for r in range(7)]
        pol[i] = [ctx.sum([ws[r] * al[r][x] for r in range(7) if al[r][x] != 0]) for x in range(23)]
    import mpmath as mp

    return lambda i, j, k: ctx.sum([pol[i][x] * pol[j][x] * pol[k][x] * (3 / mp.pi * mp.mpf(W23[x])) for x in range(23)])


def full_energy(ctx, Z, pos, cn, q, par, *, model="d4", kind="rational", exact=False, two=True, three=True, qdep3=False, cut2=60, cut3=40, r4r2=None, rvdw=None, c6scale=None, **kw):
    """Atomic D4 energies of one system, from the published equations.

    Two-body: C6(cn, q); three-body: C9(cn, q = 0), Becke-Johnson radii."""
    from . import c02

    n = len(Z)
    T = tables()
    rr = [ctx.lit(T["r4r2"][z]) for z in Z] if r4r2 is None else r4r2
    zero = [ctx.lit(0)] * n
    par = {"s6": ctx.lit(1), "s9": ctx.lit(1), "alp": ctx.lit(16), **par}
    out = [ctx.lit(0) for _ in range(n)]
    qq = lambda i, j: ctx.lit(3) * rr[i] * rr[j]  # noqa: E731
    if two:
        c6, _ = c6_table(ctx, Z, cn, q, model, **kw)
        c6 = c6 if c6scale is None else [[c6scale * x for x in row] for row in c6]
        for i in range(n):
            for j in range(i + 1, n):
                if not (Z[i] and Z[j]):
                    continue
                r = ctx.sqrt(ctx.dist2(pos[i], pos[j]))
                e = pair_energy(ctx, kind, par, c6[i][j], qq(i, j), None if rvdw is None else rvdw[i][j], r, s10="s10" in par)
                e = ctx.ite(ctx.le(r, cut2), e, 0) * ctx.lit(-0.5)
                out[i] = out[i] + e
                out[j] = out[j] + e
    if three and sum(z > 0 for z in Z) >= 3:
        c6, w = c6_table(ctx, Z, cn, q if qdep3 else zero, model, **kw)
        c6 = c6 if c6scale is None else [[c6scale * x for x in row] for row in c6]
        rad = lambda i, j: par["a1"] * ctx.sqrt(qq(i, j)) + par["a2"]  # noqa: E731
        c9 = exact_c9(ctx, Z, w, model, **kw) if exact else (lambda i, j, k: ctx.sqrt(ctx.abs(c6[i][j] * c6[j][k] * c6[i][k])))
        e3 = c02.expected(ctx, Z, pos, rad, c9, par["s9"], par["alp"], ctx.lit(cut3) if isinstance(cut3, (int, float)) else cut3)
        out = [a + b for a, b in zip(out, e3)]
    return out


# ---------------------------------------------------------------- option tables


def pairwise(opts, ok=lambda c: True, t=2):
    """Rows covering every (allowed) combination of t option values.

    Greedy and deterministic; rows are dicts, values named by their index so
    that unhashable values work."""
    import itertools

    keys = list(opts)
    idx = {k: range(len(opts[k])) for k in keys}
    val = lambda r: {k: opts[k][i] for k, i in r.items()}  # noqa: E731
    need = {}
    for ks in itertools.combinations(keys, t):
        for vs in itertools.product(*(idx[k] for k in ks)):
            need[tuple(zip(ks, vs))] = None

    reads = set()

    class Spy(dict):
        def __getitem__(self, k):
            reads.add(k)
            return dict.__getitem__(self, k)

    def allowed(row):
        """False if no completion of the row is allowed."""
        try:
            return ok(Spy(val(row)))
        except KeyError:
            return True

    def fill(row, rest):
        """Complete a partial row, covering as much as possible."""
        if not allowed(row):
            return None
        if not rest:
            return row
        k = rest[0]

        def gain(i):
            r = {**row, k: i}
            return sum(1 for o in itertools.combinations([x for x in keys if x in r and x != k], t - 1) if tuple((x, r[x]) for x in keys if x in o or x == k) in need)

        for i in sorted(idx[k], key=lambda i: (-gain(i), i)):
            r = fill({**row, k: i}, rest[1:])
            if r is not None:
                return r
        return None

    out = []
    while need:
        first = next(iter(need))
        rest = [k for k in keys if k not in dict(first)]
        if t > 2:  # options with conditions first
            rest.sort(key=lambda k: k not in reads)
        row = fill(dict(first), rest)
        if row is None:
            del need[first]  # not an allowed combination
            continue
        for ks in itertools.combinations(keys, t):
            need.pop(tuple((k, row[k]) for k in ks), None)
        out.append(val({k: row[k] for k in keys}))
    return out


SHAPES = [
    # (leading shape, systems)
    ([], [[6, 8, 1]]),
    ([], [[0, 7, 0, 17]]),
    ([1], [[8, 1, 14]]),
    ([2], [[6, 1, 0], [8, 9, 1]]),
    ([3], [[6, 1, 8], [0, 16, 1], [3, 0, 0]]),
    ([4], [[8, 1, 6], [6, 8, 0], [7, 0, 0], [17, 1, 0]]),
    ([2, 2], [[6, 1], [8, 0], [9, 14], [0, 5]]),
    ([1, 2], [[26, 1, 0], [7, 8, 79]]),
    ([2, 1, 2], [[6, 1], [0, 8], [9, 3], [4, 0]]),
]
"""Batch shapes with padding in front, between and behind."""


def patterns():
    """Batches by number and place of the padding atoms: (leading shape, systems)."""
    out = []

    def rows(counts, n, where):
        z = []
        for b, m in enumerate(counts):
            el = [(13 * i + 7 * b) % 86 + 1 for i in range(m)]
            if where == "end":
                r = el + [0] * (n - m)
            elif where == "front":
                r = [0] * (n - m) + el
            else:
                r = [0] * n
                for k in range(m):
                    r[(2 * k + b) % n if n % 2 else (k * (n - 1) + b) % n] = el[k]
            z.append(r)
        return z

    for where in ("end", "front", "mixed"):
        out.append(([3], rows([3, 2, 3], 4, where)))
        out.append(([4], rows([1, 3, 2, 3], 5, where)))
        out.append(([4], rows([0, 4, 3, 1], 5, where)))
        out.append(([5], rows([2, 2, 2, 2, 2], 3, where)))
        out.append(([5], rows([4, 3, 0, 2, 4], 4, where)))
        out.append(([2, 2], rows([3, 0, 2, 3], 4, where)))
        out.append(([2, 3], rows([3, 1, 2, 3, 3, 0], 3, where)))
    out.append(([4], [[6, 8, 1]] * 4))
    out.append(([3], [[6, 8, 0], [6, 8, 1], [6, 8, 0]]))
    return out

NO = object()


def options(opts, ok=lambda c: True, t=2):
    """pairwise without the entries whose value is NO (option not given)."""
    return [{k: v for k, v in r.items() if v is not NO} for r in pairwise(opts, ok, t)]


def run_options(tier, routes=("dftd4", "disp", "exact", "disp2", "props"), shapes=None, **more):
    """Option rows for jobs built on system() / evaluate()."""
    opt = dict(
        shape=SHAPES if shapes is None else shapes, route=list(routes), model=["d4", "d4s"], q=["sym", "num", "eeq"], charge=[NO, True],
        damping=["rational", "op", "zero", "mzero"], cutoff=[NO, True], overrides=[NO, True], far=[NO, True],
        model_kwargs=[NO, dict(ref_charges="gfn2"), dict(ga=2.5, gc=1.5)], **more,
    )

    def ok(c):
        if c["route"] == "props":
            return c["model"] == "d4" and c["q"] == "eeq" and c["damping"] == "rational" and c["overrides"] is NO and c["model_kwargs"] is NO
        if c["damping"] in ("zero", "mzero") and c["route"] not in ("disp2", "two"):
            return False
        if c["damping"] != "rational" and c["route"] in ("disp", "exact"):
            return False
        return True

    out = []
    for k in options(opt, ok, 2):
        lead, zs = k.pop("shape")
        if k["route"] == "dftd4" and "model_kwargs" in k:
            k["instance"] = True
        out.append(dict(k, Z=zs, lead=lead, grid=True))
    return out
