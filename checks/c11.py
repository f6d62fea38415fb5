"""C11: autograd returns the derivative of the energy."""

import math

import mpmath
import torch

from . import common as C

EXPLANATION = """
The code runs on symbolic inputs with requires_grad; torch's own autograd
graph of that run is evaluated backwards on symbolic tensors, and z3 compares
each gradient entry with the exact derivative of the returned energy term
(positions, charges, total charge, damping parameters, r4r2, vdW radii,
cutoff-masked pairs, padding), so that a detached tensor, a copied parameter or
a NaN in a masked branch shows.  CN and EEQ charges of the environment are
replaced by functions linear in the positions where the chain through them is
the point.  Replays compare with finite differences.
"""
ASSUMPTIONS = [
    "distances >= 0.5 bohr, no distance exactly at a cutoff (the energy jumps there)",
    "chain through CN and EEQ checked with coordination numbers / charges that depend linearly on the positions",
]


def compare(ctx, label, f, xs, retain=False, atol=1e-9, tol=None):
    """xs: list of nested lists of scalars; f(*tensors) -> 0-dim tensor.
    Only entries that are free inputs are compared; all must be finite."""
    ts = [ctx.tensor(x, requires_grad=True) for x in xs]
    y = f(*ts)
    gs = torch.autograd.grad(y, ts, allow_unused=True)
    for k, (x, t, g) in enumerate(zip(xs, ts, gs)):
        if g is None:
            g = torch.zeros(t.shape, dtype=t.dtype)
        ctx.check_bool(f"{label}: gradient shape", g.shape == t.shape)
        ctx.check_finite(f"{label}: gradient {k} finite", g)
        flat, idx = _flat(x), []
        want = []
        if ctx.symbolic:
            (ye,) = ctx.entries(y)
            group = {}
            for i, v in enumerate(flat):
                if free(v):
                    group.setdefault(v.e.p.key(), []).append(i)
            for ii in group.values():
                idx.append(ii)
                want.append(ctx.diff(ye, flat[ii[0]]))
        else:
            for i in range(len(flat)):
                idx.append([i])
                want.append(fdiff(f, ts, k, i))
        got = ctx.entries(g)
        ctx.check_eq(f"{label}: gradient {k}", [ctx.sum([got[i] for i in ii]) for ii in idx], want, atol=atol, tol=tol if ctx.symbolic else 2e-5)
    return y


def _flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in _flat(y)]
    return [x]


def free(v):
    p = v.e.p
    if len(p.t) != 1:
        return False
    ((m, c),) = p.t.items()
    from symt import poly as P

    return m[1] is None and len(m[0]) == 1 and m[0][0][1] == 1 and c == 1 and P.W.atoms[m[0][0][0]].kind == "var"


def fdiff(f, ts, k, i):
    """Richardson central difference of the unmodified code."""

    def at(h):
        zs = []
        for j, t in enumerate(ts):
            u = t.detach().clone()
            if j == k:
                u.reshape(-1)[i] += h
            zs.append(u)
        return float(f(*zs).detach())

    x = abs(float(ts[k].detach().reshape(-1)[i]))
    h = 2e-4 * max(1.0, x)
    d1 = (at(h) - at(-h)) / (2 * h)
    d2 = (at(2 * h) - at(-2 * h)) / (4 * h)
    return mpmath.mpf((4 * d1 - d2) / 3)


def hess(ctx, cfg):
    """Second derivatives through create_graph."""
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    Z = cfg["Z"]
    num = torch.tensor(Z)
    S = C.system(ctx, dict(cfg, Z=[Z], q="none"))
    names = list(S["par"])
    cn0 = torch.tensor([0.9, 1.4, 0.0][: len(Z)], dtype=C.DT)
    wcn = torch.tensor([0.03, -0.02, 0.05], dtype=C.DT)

    def energy(pos, q, p):
        d = Disp(model=cfg.get("model", "d4"), cn_fn=lambda numbers, positions: cn0 + (positions * wcn).sum(-1) * (num != 0), dtype=C.DT)
        d.register(TwoBodyTerm(damping_fn=C.damping(cfg.get("damping", "rational"))))
        return d.calculate(num, pos, torch.tensor(0.0, dtype=C.DT), dict(zip(names, p)), q=q).sum()

    qs = [ctx.real(f"q{i}", -0.5, 0.5) if Z[i] else ctx.lit(0) for i in range(len(Z))]

    def f(pos, q, *p):
        if not pos.requires_grad:
            pos = pos.clone().requires_grad_(True)
        (g,) = torch.autograd.grad(energy(pos, q, p), pos, create_graph=True)
        return (g * torch.arange(1, g.numel() + 1, dtype=C.DT).reshape(g.shape)).sum()

    compare(ctx, "Hessian", f, [S["pos"][0], qs, *[S["par"][k] for k in names]])


def two(ctx, cfg):
    """dispersion2: positions, c6, r4r2, rvdw and parameters."""
    from tad_dftd4.dispersion.twobody import dispersion2

    Z = cfg["Z"]
    n = len(Z)
    kind = cfg.get("damping", "rational")
    S = C.system(ctx, dict(cfg, Z=[Z], q="none", overrides=cfg.get("overrides", True)))
    if not S["r4r2"]:
        S["r4r2"] = [[ctx.lit(v) for v in (3.1, 2.4, 4.2)[:n]]]
        S["rvdw"] = [[[ctx.lit(3.3)] * n] * n]
    c6 = C.sym_matrix(ctx, "c6", n, 1, 500)
    num = torch.tensor(Z)
    names = list(S["par"])
    cut = ctx.real("cut", 1, 60) if cfg.get("cutoff") else None
    away_from_cut(ctx, S["pos"][0], Z, cut)
    dmp = C.damping(kind)
    w = [0.7, -1.3, 2.1, 0.4]

    def f(pos, c, r4, rv, *p):
        kw = {} if cut is None else {"cutoff": ctx.tensor(cut)}
        e = dispersion2(num, pos, dict(zip(names, p)), 0.5 * (c + c.mT), r4, 0.5 * (rv + rv.mT), dmp, **kw)
        return sum(e[i] * w[i] for i in range(n))

    # symmetric inputs: free upper triangle only
    only = cfg.get("wrt")
    xs = [S["pos"][0], tri(ctx, c6), S["r4r2"][0], tri(ctx, S["rvdw"][0]), *[S["par"][k] for k in names]]
    compare(ctx, f"{kind}", f, xs)


def tri(ctx, m):
    """Upper triangle (x2) so that 0.5 (m + m^T) is the symmetric matrix."""
    n = len(m)
    return [[m[i][j] * 1 if i == j else (m[i][j] if j > i else ctx.lit(0)) for j in range(n)] for i in range(n)]


def away_from_cut(ctx, pts, Z, cut):
    if cut is None:
        return
    n = len(Z)
    for i in range(n):
        for j in range(i):
            if Z[i] and Z[j]:
                r2 = ctx.dist2(pts[i], pts[j])
                ctx.assume(ctx.lt(r2, cut * cut) | ctx.lt(cut * cut, r2))


def three(ctx, cfg):
    """get_atm_dispersion: positions, radii, s9, alp."""
    from tad_dftd4.dispersion.threebody import get_atm_dispersion

    Z = cfg["Z"]
    n = len(Z)
    S = C.system(ctx, dict(cfg, Z=[Z], q="none"))
    rad = C.sym_matrix(ctx, "r0", n, 2, 8)
    c9 = ctx.real("c9", 1, 500)
    s9, alp = ctx.real("s9_", 0, 2), ctx.real("alp_", 6, 18)
    num = torch.tensor(Z)
    cut = ctx.real("cut", 1, 40) if cfg.get("cutoff") else ctx.lit(40)
    away_from_cut(ctx, S["pos"][0], Z, cut if cfg.get("cutoff") else None)
    w = [0.7, -1.3, 2.1, 0.4]

    def f(pos, c, r, s, a):
        e = get_atm_dispersion(num, pos, c * torch.ones(n, n, n, dtype=C.DT), r, ctx.tensor(cut), s9=s, alp=a)
        return sum(e[i] * w[i] for i in range(n))

    xs = [S["pos"][0], c9, [[rad[i][j] if j > i else ctx.lit(4) for j in range(n)] for i in range(n)], s9, alp]
    compare(ctx, "ATM", f, xs)


def model(ctx, cfg):
    """C6 and polarizabilities with respect to CN, q (and wf)."""
    from tad_dftd4 import model as M

    Z = cfg["Z"]
    n = len(Z)
    num = torch.tensor(Z)
    fix = cfg.get("fix", [])
    cn = [ctx.lit([0.9, 1.7, 2.6][i]) if i in fix else ctx.real(f"cn{i}", 0, 6) for i in range(n)]
    q = [ctx.lit([0.1, -0.2, 0.3][i]) if i in fix else ctx.real(f"q{i}", -0.8, 0.8) for i in range(n)]
    cls = {"d4": M.D4Model, "d4s": M.D4SModel}[cfg.get("model", "d4")]
    m = cls(num, dtype=C.DT, ref_charges=cfg.get("ref", "eeq"))
    what = cfg.get("what", "c6")

    def f(a, b):
        w = m.weight_references(a, b)
        if what == "c6":
            o = m.get_atomic_c6(w)
        elif what == "pol":
            o = m.get_polarizabilities(w)
        else:
            o = m.get_weighted_pols(w)[..., [0, 5]]
        k = torch.arange(1, o.numel() + 1, dtype=C.DT).reshape(o.shape)
        return (o * k).sum()

    compare(ctx, what, f, [cn, q])


def chain(ctx, cfg):
    """Full energy: chain through CN and charges, both linear in positions."""
    import tad_dftd4 as d4
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    Z = cfg["Z"]
    n = len(Z)
    num = torch.tensor(Z)
    S = C.system(ctx, dict(cfg, Z=[Z], q="none"))
    wcn = torch.tensor([0.03, -0.02, 0.05], dtype=C.DT)
    wq = torch.tensor([0.01, 0.02, -0.015], dtype=C.DT)
    c0 = torch.tensor([0.9, 1.1, 2.0][:n], dtype=C.DT)
    mask = (num != 0).to(C.DT)

    def cnf(numbers, positions, **kw):
        return (c0 + (positions * wcn).sum(-1)) * mask

    names = list(S["par"])
    mdl = cfg.get("model", "d4")
    qsrc = cfg.get("qsrc", "arg")
    chg0 = ctx.real("chg", -1, 1) if qsrc == "eeq" else ctx.lit(0)
    ctx.eeq_linear(wq, 0.05)

    def f(pos, chg, *p):
        par = dict(zip(names, p))
        q = (0.1 * c0 + (pos * wq).sum(-1)) * mask if qsrc == "arg" else None
        route = cfg.get("route", "dftd4")
        if route == "dftd4":
            e = d4.dftd4(num, pos, chg, par, cn_function=cnf, q=q, model=mdl)
        elif route == "two":
            d = Disp(model=mdl, cn_fn=cnf, dtype=C.DT)
            d.register(TwoBodyTerm())
            e = d.calculate(num, pos, chg, par, q=q)
        elif route in ("atm", "atmx"):
            from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact

            d = Disp(model=mdl, cn_fn=cnf, dtype=C.DT)
            d.register((D4ATMApprox if route == "atm" else D4ATMExact)(charge_dependent=cfg.get("dep", False)))
            e = d.calculate(num, pos, chg, par, q=q if cfg.get("dep") else None)
        else:
            cls = {"exact": DispD4Exact, "disp": DispD4}[route]
            e = cls(model=mdl, cn_fn=cnf, dtype=C.DT).calculate(num, pos, chg, par, q=q)
        return e.sum()

    compare(ctx, "energy", f, [S["pos"][0], chg0, *[S["par"][k] for k in names]])


def terms(ctx, cfg):
    """Energies of the registered terms: overrides, charges and parameters."""
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    Z = cfg["Z"]
    nb, n = len(Z), len(Z[0])
    num = torch.tensor(Z)
    S = C.system(ctx, dict(cfg, q="none", grid=True, overrides=True))
    names = list(S["par"])
    par = dict(S["par"])
    for k in cfg.get("more", []):
        par[k] = ctx.real(k, *C.PARAMS[k])
        names.append(k)
    dep = cfg.get("dep", False)
    q = [[ctx.real(f"q{b}_{i}", -0.5, 0.5) if Z[b][i] and dep else ctx.lit(0) for i in range(n)] for b in range(nb)]
    cls = {"two": TwoBodyTerm, "d3": D3ATM, "atm": D4ATMApprox, "exact": D4ATMExact}[cfg["term"]]
    kw = dict(damping_fn=C.damping(cfg["damping"])) if "damping" in cfg else {}
    w = torch.tensor([0.7, -1.3, 2.1, 0.4][:n], dtype=C.DT)

    def f(r4, rv, qq, *p):
        d = Disp(model=cfg.get("model", "d4"), cn_fn=lambda numbers, positions: 0.9 + 0.2 * torch.arange(n, dtype=C.DT) * (num != 0), dtype=C.DT)
        d.register(cls(charge_dependent=dep, **kw))
        e = d.calculate(num, ctx.tensor(S["pos"]), torch.zeros(nb, dtype=C.DT) if nb > 1 else torch.zeros(1, 1, dtype=C.DT), dict(zip(names, p)), q=qq if dep else None, r4r2=r4, rvdw=0.5 * (rv + rv.mT), cutoff=Cutoff(dtype=C.DT))
        return (e * w).sum()

    compare(ctx, cfg["term"], f, [S["r4r2"], [tri(ctx, m) for m in S["rvdw"]], q, *[par[k] for k in names]])


def finite32(ctx, cfg):
    """Masked entries do not overflow in single precision either."""
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    ctx.overflow()
    kind = cfg["damping"]
    Z = cfg["Z"]
    n = len(Z[0])
    f32 = torch.float32
    S = C.system(ctx, cfg)
    names = list(S["par"])
    pos = ctx.tensor(S["pos"], f32, requires_grad=True)
    ps = [ctx.tensor(S["par"][k], f32, requires_grad=True) for k in names]
    q = ctx.tensor(S["q"], f32, requires_grad=True)
    d = Disp(dtype=f32)
    d.register(TwoBodyTerm(damping_fn=C.damping(kind)))
    e = d.calculate(torch.tensor(Z), pos, torch.zeros(len(Z), dtype=f32), dict(zip(names, ps)), q=q)
    ctx.check_finite("energy", e)
    for k, g in zip(["pos", "q", *names], torch.autograd.grad(e.sum(), [pos, q, *ps], allow_unused=True)):
        if g is not None:
            ctx.check_finite(f"gradient {k}", g)


def native(ctx, cfg):
    """Full energy with the package's own CN; charges given."""
    import tad_dftd4 as d4

    Z = cfg["Z"]
    n = len(Z)
    num = torch.tensor(Z)
    S = C.system(ctx, dict(cfg, Z=[Z]))
    names = list(S["par"])

    def f(pos, q, *p):
        return d4.dftd4(num, pos, torch.tensor(0.0, dtype=C.DT), dict(zip(names, p)), q=q, model=cfg.get("model", "d4")).sum()

    compare(ctx, "energy", f, [S["pos"][0], S["q"][0], *[S["par"][k] for k in names]])


def batched(ctx, cfg):
    """Gradients of a (padded) batch are those of its systems alone."""
    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg["lead"]
    S = C.system(ctx, cfg)
    wcn = torch.tensor([0.03, -0.02, 0.05], dtype=C.DT)
    wq = torch.tensor([0.01, 0.02, -0.015], dtype=C.DT)
    ctx.eeq_linear(wq, 0.05)
    names = list(S["par"])

    def grads(Z, lead, pos, q, chg, wrt="all", b=None):
        """Gradients wrt positions, charges, parameters and radii."""
        on = lambda k: wrt in ("all", k)  # noqa: E731
        num = torch.tensor(Z).reshape(*lead, len(Z[0]))
        x = ctx.tensor(pos, requires_grad=on("pos"))
        y = None if q is None else ctx.tensor(q, requires_grad=on("q"))
        c = ctx.tensor(chg, requires_grad=on("chg"))
        p = [ctx.tensor(S["par"][k], requires_grad=on("par")) for k in names]
        m = len(Z[0])
        ov = {}
        if S["r4r2"] is not None:
            ov["r4r2"] = ctx.tensor(S["r4r2"] if b is None else S["r4r2"][b], requires_grad=on("r4r2"))
            ov["rvdw"] = ctx.tensor(S["rvdw"] if b is None else S["rvdw"][b], requires_grad=on("rvdw"))
        shaped = {k: v.reshape(*lead, *([m] if k == "r4r2" else [m, m])) for k, v in ov.items()}
        w = torch.tensor([[1.0 + 0.3 * i for i in range(len(Z[0]))]] * len(Z), dtype=C.DT)
        w = w.reshape(num.shape)
        if cfg.get("cn") == "lin":
            cnf = lambda numbers, positions, **kw: (1.2 + (positions * wcn).sum(-1)) * (numbers != 0)  # noqa: E731
        else:
            cnf = None
        e = _energy(cfg, num, x.reshape(*lead, len(Z[0]), 3), c.reshape([*lead, 1] if lead else []), dict(zip(names, p)), None if y is None else y.reshape(num.shape), cnf, **shaped)
        outs = dict(pos=x, chg=c, q=y, **ov, **{f"par_{k}": v for k, v in zip(names, p)})
        outs = {k: v for k, v in outs.items() if v is not None and v.requires_grad}
        if not e.requires_grad:
            return {k: ctx.entries(torch.zeros(v.shape, dtype=C.DT)) for k, v in outs.items()}
        g = torch.autograd.grad((e * w).sum(), list(outs.values()), allow_unused=True)
        return {k: ctx.entries(torch.zeros(t.shape, dtype=C.DT) if v is None else v) for v, (k, t) in zip(g, outs.items())}

    chg = S["charge"] or [ctx.lit(0)] * nb
    whole = grads(sysm, lead, S["pos"], S["q"], chg, cfg.get("wrt", "all"))
    if not whole:
        return ctx.check_bool("nothing to differentiate", True)
    acc = {k: [ctx.lit(0)] for k in whole if k.startswith("par_")}
    for b in range(nb):
        # the weights of the atoms depend on the index, so padding stays
        one = grads([sysm[b]], [], S["pos"][b], None if S["q"] is None else S["q"][b], chg[b], b=b)
        for k, v in whole.items():
            if k in acc:
                acc[k] = [acc[k][0] + one[k][0]]
            else:
                m = len(v) // nb
                ctx.check_eq(k, v[m * b : m * (b + 1)], one[k], atol=1e-13)
    for k, v in acc.items():
        ctx.check_eq(k, whole[k], v, atol=1e-12)


def _energy(cfg, num, pos, chg, par, q, cnf, **kw):
    import tad_dftd4 as d4
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    route, mdl = cfg.get("route", "dftd4"), cfg.get("model", "d4")
    if cfg.get("model_kwargs"):
        from tad_dftd4.model import D4Model, D4SModel

        mdl = (D4SModel if mdl == "d4s" else D4Model)(num, dtype=C.DT, **cfg["model_kwargs"])
    if route == "dftd4":
        return d4.dftd4(num, pos, chg, par, q=q, model=mdl, **kw, **({} if cnf is None else {"cn_function": cnf}))
    a = dict(model=mdl, dtype=C.DT, **({} if cnf is None else {"cn_fn": cnf}))
    if route == "two":
        d = Disp(**a)
        d.register(TwoBodyTerm(damping_fn=C.damping(cfg.get("damping", "rational"))))
    else:
        d = {"exact": DispD4Exact, "disp": DispD4}[route](**a)
    return d.calculate(num, pos, chg, par, q=q, **kw)


def size(ctx, cfg):
    """Many atoms: directional derivative of the energy (symbolic scaling
    parameters) against a Richardson difference of the energy."""
    Z = cfg["Z"]
    n = len(Z)
    num = torch.tensor(Z)
    S = C.system(ctx, dict(Z=[Z], grid=True, q="num", damping=cfg.get("damping", "rational"), fixed=dict(a1=0.4, a2=4.8, rs6=1.1, rs8=0.9, alp=14, bet=0.3)))
    par = C.tparams(ctx, S["par"], plain=True)
    x0 = torch.tensor(C.grid(n), dtype=C.DT)
    v = torch.tensor([[math.sin(1.0 + i), math.cos(2.0 * i), math.sin(0.5 * i)] for i in range(n)], dtype=C.DT)
    q = torch.tensor([round(0.4 * math.sin(1.7 * i), 2) for i in range(n)], dtype=C.DT)
    E = lambda x: _energy(cfg, num, x, torch.tensor(0.0, dtype=C.DT), par, q, None).sum()  # noqa: E731
    x = ctx.tensor(x0.tolist(), requires_grad=True)
    (g,) = torch.autograd.grad(E(x), x)
    got = ctx.sum([a * ctx.lit(b) for a, b in zip(ctx.entries(g), v.reshape(-1).tolist())])
    h = 4e-4
    e = [ctx.entries(E(x0 + k * h * v))[0] for k in (-2, -1, 1, 2)]
    want = (8 * (e[2] - e[1]) - (e[3] - e[0])) / ctx.lit(12 * h)
    ctx.check_eq("directional derivative", [got], [want], atol=1e-9, tol=1e-6)


def force(ctx, cfg):
    """The gradient sums to zero over the atoms, and is zero on padding."""
    import tad_dftd4 as d4

    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    S = C.system(ctx, cfg)
    pos = ctx.tensor(S["pos"], requires_grad=True)
    e = C.evaluate(ctx, cfg, S, pos=pos)[0]
    (g,) = torch.autograd.grad(e.sum(), pos)
    ctx.check_finite("gradient finite", g)
    G = ctx.entries(g)
    for b in range(nb):
        for k in range(3):
            ctx.check_eq("net force", [ctx.sum([G[(b * n + i) * 3 + k] for i in range(n)])], [ctx.lit(0)], atol=1e-11)
        for i in range(n):
            if sysm[b][i] == 0:
                ctx.check_eq("padding", [G[(b * n + i) * 3 + k] for k in range(3)], [ctx.lit(0)] * 3)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    for d in ("rational", "zero", "mzero"):
        add("two", Z=[6, 8], damping=d)
        add("two", Z=[6, 0, 8], damping=d, pad="sym")
        add("two", Z=[6, 0, 8], damping=d, pad="same")
        add("two", Z=[6, 8, 1], damping=d, grid=True, cutoff=True)
    par = dict(a1=0.4, a2=4.5, bet=6.0)
    one = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4]]]
    add("two", Z=[6, 8], damping="op", coords=one, overrides=False, fixed=par)
    for k in par:
        add("two", Z=[6, 8], damping="op", grid=True, overrides=False, fixed={x: v for x, v in par.items() if x != k})
    add("two", Z=[6, 8], damping="op", grid=True, fixed=par)
    add("two", Z=[6, 0, 8], damping="op", grid=True, fixed=par, pad="sym", cutoff=True)
    lin = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.0, 0.0, 0.0]]]
    add("hess", Z=[2, 10], coords=lin, fixed=dict(a1=0.4, a2=5.0))
    add("hess", Z=[2, 10, 0], coords=lin, fixed=dict(a1=0.4, a2=5.0), model="d4s")
    add("hess", Z=[1, 2], coords=lin, fixed=dict(a1=0.4, a2=5.0))
    for d in ("rational", "zero", "mzero", "op"):
        add("finite32", Z=[[6, 1, 0], [1, 0, 8]], damping=d, grid=True, q="num")
    add("three", Z=[6, 8, 1])
    add("three", Z=[6, 8, 0, 1], pad="sym")
    add("three", Z=[6, 8, 0, 1], pad="same")
    add("three", Z=[6, 8, 1], cutoff=True)
    for m in ("d4", "d4s"):
        add("model", Z=[1, 2], model=m)
        add("model", Z=[6, 1] if m == "d4" else [1, 3], fix=[1], model=m)
        add("model", Z=[0, 8], model=m)
        add("model", Z=[8, 1, 0], fix=[1], what="pol", model=m)
        add("model", Z=[8, 1], fix=[1], what="pols", model=m)
        add("chain", Z=[1, 2], model=m, route="two")
        add("chain", Z=[2, 10], model=m, route="dftd4")
        add("force", Z=[[1, 2, 0], [2, 2, 0]], model=m, route="disp2", q="num")
        add("native", Z=[2, 10], model=m)
        add("native", Z=[1, 1], model=m)
        add("native", Z=[1, 2], model=m, coords=[[[None, 0.3, 0.1], [2.5, -1.0, 0.4]]], fixed=dict(a1=0.4, a2=5.0))
    add("chain", Z=[2, 10, 0], route="disp", pad="same")
    add("chain", Z=[2, 10, 2], route="exact", coords=[[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]], fixed=dict(a1=0.4, a2=5.0))
    for r in ("atm", "atmx"):
        for m in ("d4", "d4s") if r == "atm" else ("d4",):
            tri_ = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]]
            add("chain", Z=[1, 2, 10], route=r, model=m, coords=tri_, fixed=dict(a1=0.4, a2=5.0))
            add("chain", Z=[1, 2, 10], route=r, model=m, coords=tri_, fixed=dict(a1=0.4, a2=5.0), dep=True)
    fx = dict(a1=0.4, a2=5.0)
    for zs in ([[2, 10, 1]], [[2, 0, 10, 1], [1, 2, 0, 0]]):
        for t, more in (("d3", ["rs9", "alp"]), ("atm", ["alp"]), ("exact", ["alp"])):
            add("terms", Z=zs, term=t, more=more)
            if t != "d3" and len(zs) == 1:
                add("terms", Z=zs, term=t, more=more, dep=True, fixed=fx)
        for d in ("rational", "zero", "mzero"):
            add("terms", Z=zs, term="two", damping=d, dep=True, more=["s10"] if d == "rational" else [])
    add("terms", Z=[[2, 10]], term="two", damping="op", dep=True, fixed=dict(bet=6.0, **fx))
    add("terms", Z=[[2, 10, 1]], term="atm", model="d4s", more=["alp"])
    add("chain", Z=[2, 10, 2], route="exact", grid=True)
    add("chain", Z=[2, 10, 2], route="disp", grid=True, model="d4s")
    add("chain", Z=[2, 10], route="dftd4", qsrc="eeq")
    add("chain", Z=[2, 10], route="exact", qsrc="eeq", model="d4s")
    opt = dict(
        shape=C.SHAPES[2:], route=["dftd4", "disp", "exact", "two"], model=["d4", "d4s"], q=["num", "eeq"], charge=[C.NO, True], cn=[C.NO, "lin"],
        damping=["rational", "zero", "mzero"], pad=["zero", "sym"],
        wrt=["all", "pos", "q", "par", "r4r2"], overrides=[C.NO, True], model_kwargs=[C.NO, dict(ref_charges="gfn2"), dict(ga=2.5, gc=1.5)],
    )
    for k in C.options(opt, lambda c: c["damping"] == "rational" or c["route"] == "two"):
        lead, zs = k.pop("shape")
        add("batched", Z=zs, lead=lead, grid=True, **k)
    el = lambda n: [(7 * i) % 100 + 1 for i in range(n)]  # noqa: E731
    for m in ("d4", "d4s"):
        for r, n in (("dftd4", 7), ("dftd4", 12), ("disp", 9), ("exact", 8), ("two", 18), ("two", 36)):
            add("size", Z=el(n), route=r, model=m)
        for d in ("zero", "mzero", "op"):
            add("size", Z=el(10), route="two", model=m, damping=d)
    if tier == "thorough":
        for m in ("d4", "d4s"):
            for zs in ([3, 9], [11, 17], [6, 1], [79, 2], [92, 1]):
                add("native", Z=zs, model=m, coords=[[[None, 0.3, 0.1], [2.5, -1.0, 0.4]]], fixed=fx)
                add("model", Z=zs, model=m)
                add("model", Z=zs, model=m, ref="gfn2", what="pol") if max(zs) < 87 else None
            add("hess", Z=[3, 9], coords=lin, fixed=fx, model=m)
            add("terms", Z=[[6, 8, 1]], term="two", damping="rational", dep=True, model=m)
            add("terms", Z=[[6, 8, 1]], term="atm", dep=True, model=m, fixed=fx)
        for d in ("rational", "zero", "mzero"):
            add("two", Z=[6, 8, 1, 7], damping=d, grid=True)
            add("two", Z=[6, 8, 1], damping=d)
        add("three", Z=[6, 8, 1, 7])
        add("three", Z=[6, 8, 1, 7], cutoff=True)
    return J
