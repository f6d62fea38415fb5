"""C06: charge scaling and analytic derivatives of the weights."""

import torch

from . import common as C

EXPLANATION = """
weight_references(with_dgwdq / with_dgwdcn) and the private charge scaling run
on symbolic CN and q; z3 compares the returned derivatives with the exact
derivative (computed on the term of the weights) and with what autograd yields
on the same inputs, for every element, both branches of the ionisation test
and both models.
"""
ASSUMPTIONS = ["0 <= CN <= 12, -2.5 <= q <= 2.5"]


def _model(cfg, num):
    from tad_dftd4.model import D4Model, D4SModel

    return {"d4": D4Model, "d4s": D4SModel}[cfg.get("model", "d4")](
        num, ref_charges=cfg.get("ref", "eeq"), dtype=C.DT, **cfg.get("kw", {})
    )


def _in(ctx, cfg, grad=False):
    """Atoms of all systems in one row (Z: a row, or rows of a batch)."""
    Z = cfg["Z"]
    lead, n = [], len(Z)
    if isinstance(Z[0], list):
        lead, n = cfg.get("lead", [len(Z)]), len(Z[0])
        Z = [z for r in Z for z in r]
    m = len(Z)
    if cfg.get("cns") == "num":
        cn = [ctx.lit([0.9, 1.7, 3.2, 2.4, 0.3][i % 5]) for i in range(m)]
    else:
        cn = [ctx.real(f"cn{i}", 0, 12) for i in range(m)]
    q = [ctx.real(f"q{i}", *cfg.get("q", (-0.9, 2.5))) for i in range(m)]
    return Z, n, cn, q, torch.tensor(Z).reshape(*lead, n)


def _t(ctx, v, num, **kw):
    t = ctx.tensor(v, **kw)
    return t if num.dim() == 1 else t.reshape(num.shape)


def dq(ctx, cfg):
    Z, n, cn, q, num = _in(ctx, cfg)
    m = _model(cfg, num)
    CN, leaf = _t(ctx, cn, num), ctx.tensor(q, requires_grad=True)
    Q = leaf.reshape(num.shape)
    out = m.weight_references(CN, Q, with_dgwdq=True)
    ctx.check_bool("two results", isinstance(out, tuple) and len(out) == 2)
    w0 = m.weight_references(CN, Q)
    ctx.check_eq("weights unchanged by the derivative request", out[0], w0)
    ctx.check_bool("shape", out[1].shape == w0.shape)
    # autograd: weights of atom i depend on q_i only
    d4s = cfg.get("model", "d4") == "d4s"
    shp = (-1, n, n, 7) if d4s else (-1, 1, n, 7)  # system, partner, atom, reference
    gw, dw = w0.reshape(shp), out[1].reshape(shp)
    for r in cfg.get("refs", range(7)):
        for k in range(gw.shape[1]):
            (g,) = torch.autograd.grad(gw[:, k, :, r].sum(), leaf, retain_graph=True)
            ctx.check_eq("autograd", dw[:, k, :, r].reshape(-1), g, atol=1e-12)
    _oracle(ctx, cfg, Z, cn, q, out[1], "q")


def _oracle(ctx, cfg, Z, cn, q, got, wrt):
    """Published derivative formulas."""
    if cfg.get("model", "d4") != "d4":
        return
    T = C.tables(cfg.get("ref", "eeq"))
    ga, gc, wf = cfg.get("kw", {}).get("ga", 3.0), cfg.get("kw", {}).get("gc", 2.0), cfg.get("kw", {}).get("wf", 6.0)
    want = []
    for i, z in enumerate(Z):
        if z == 0:
            want += [ctx.lit(0)] * 7
            continue
        g = C.gauss(ctx, z, cn[i], ctx.lit(wf), T)
        norm = ctx.sum([x for x in g if x is not None])
        ze = T["zeff"][z]
        gam = ctx.lit(T["gam"][z]) * gc
        dg = []
        for r in range(7):
            if g[r] is None:
                dg.append(None)
                continue
            d = cn[i] - T["cn"][z][r]
            dg.append(ctx.sum([-(2 * k * wf) * d * ctx.exp(-(k * wf) * d * d) for k in range(1, T["refc"][z][r] + 1)]))
        dn = ctx.sum([x for x in dg if x is not None])
        for r in range(7):
            if g[r] is None:
                want.append(ctx.lit(0))
                continue
            qr, qm = ctx.lit(T["q"][z][r]) + ze, q[i] + ze
            zt = C.zeta(ctx, ctx.lit(ga), gam, qr, qm)
            if wrt == "q":
                sc = ctx.exp(gam * (1 - qr / qm))
                dz = ctx.ite(ctx.le(qm, 0), 0, -ga * gam * sc * ctx.exp(ga * (1 - sc)) * qr / (qm * qm))
                want.append(dz * g[r] / norm)
            else:
                want.append(zt * (dg[r] / norm - g[r] * dn / (norm * norm)))
    return ctx.check_eq(f"d weight / d {wrt}", got.reshape(-1), want, atol=1e-12) if wrt == "q" else want


def dcn(ctx, cfg):
    Z, n, cn, q, num = _in(ctx, cfg)
    m = _model(cfg, num)
    CN, Q = _t(ctx, cn, num), _t(ctx, q, num)
    out = m.weight_references(CN, Q, with_dgwdcn=True)
    ctx.check_bool("two results", isinstance(out, tuple) and len(out) == 2)
    ctx.check_eq("weights unchanged by the derivative request", out[0], m.weight_references(CN, Q))
    want = _oracle(ctx, cfg, Z, cn, q, out[1], "cn")
    s = _sign(cfg)
    ctx.check_eq("d weight / d cn up to the sign", s * out[1].reshape(-1), want, atol=1e-9)
    if not cfg.get("mag"):
        ctx.check_bool("sign of d weight / d cn is reversed", s > 0)


def _sign(cfg):
    """Sign convention of the returned derivative, read off at one point."""
    from torch.utils._python_dispatch import _disable_current_modes

    with _disable_current_modes():
        m = _model(cfg, torch.tensor([6]))
        x = torch.tensor([2.4], dtype=C.DT)
        a, d = m.weight_references(x, with_dgwdcn=True)
        num = (m.weight_references(x + 1e-4) - m.weight_references(x - 1e-4)) / 2e-4
        return 1 if float((d * num).sum()) >= 0 else -1


def both(ctx, cfg):
    Z, n, cn, q, num = _in(ctx, cfg)
    m = _model(cfg, num)
    CN, Q = _t(ctx, cn, num), _t(ctx, q, num)
    out = m.weight_references(CN, Q, with_dgwdcn=True, with_dgwdq=True)
    ctx.check_bool("three results", isinstance(out, tuple) and len(out) == 3)
    a = m.weight_references(CN, Q, with_dgwdcn=True)
    b = m.weight_references(CN, Q, with_dgwdq=True)
    ctx.check_eq("weights", out[0], a[0])
    ctx.check_eq("order of the results: cn", out[1], a[1])
    ctx.check_eq("order of the results: q", out[2], b[1])


def autocn(ctx, cfg):
    """Autograd derivative of the weights with respect to CN."""
    Z, n, cn, q, num = _in(ctx, cfg)
    m = _model(cfg, num)
    CN, Q = ctx.tensor(cn, requires_grad=True), _t(ctx, q, num)
    w = m.weight_references(CN.reshape(num.shape), Q)
    want = _oracle(ctx, cfg, Z, cn, q, None, "cn")
    for r in range(7):
        (g,) = torch.autograd.grad(w[..., r].sum(), CN, retain_graph=True)
        ctx.check_eq("autograd d weight / d cn", g.reshape(-1), [want[7 * i + r] for i in range(len(Z))], atol=1e-9)


def d4s_dcn(ctx, cfg):
    Z, n, cn, q, num = _in(ctx, cfg)
    try:
        _model(cfg, num).weight_references(ctx.tensor(cn), ctx.tensor(q), with_dgwdcn=True)
        ok = False
    except NotImplementedError:
        ok = True
    ctx.check_bool("D4S refuses the CN derivative", ok)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    add("dq", Z=[1, 6, 8])
    add("dq", Z=[1, 0, 3], q=(-2.5, 2.5))
    add("dq", Z=[26, 92], ref="eeq", kw=dict(ga=2.0, gc=1.5))
    add("dq", Z=[17, 35], ref="gfn2")
    add("dq", Z=[1, 7], model="d4s", refs=[0, 1])
    add("dq", Z=[1, 0, 9], model="d4s", refs=[0], q=(-2.5, 2.5))
    add("dcn", Z=[1, 6])
    add("dcn", Z=[26, 0, 92], mag=True)
    add("dcn", Z=[1, 6], mag=True, kw=dict(wf=4.0))
    add("dcn", Z=[2, 8], mag=True, kw=dict(wf=7.5, ga=2.0, gc=1.5))
    add("dcn", Z=[9, 3], mag=True, ref="gfn2")
    add("dcn", Z=[6], mag=True, kw=dict(wf=4.0))
    add("dq", Z=[6, 16], kw=dict(wf=4.0))
    add("dq", Z=[6], model="d4s", refs=[0, 2])
    add("both", Z=[1, 9], kw=dict(wf=5.0, ga=2.5), ref="gfn2")
    add("both", Z=[6, 0, 1])
    add("both", Z=[14, 20])
    add("autocn", Z=[1, 6])
    add("autocn", Z=[26, 0])
    add("autocn", Z=[92, 8], kw=dict(wf=4.0))
    add("d4s_dcn", Z=[6, 1], model="d4s")
    opt = dict(
        shape=C.SHAPES, fn=["dq", "dq", "both"], model=["d4", "d4s"], ref=["eeq", "gfn2"],
        kw=[{}, dict(gc=1.5), dict(ga=2.0), dict(wf=4.0), dict(ga=2.5, gc=1.2)], q=[(-0.9, 2.5), (-2.5, 5)],
    )
    ok = lambda c: not (c["model"] == "d4s" and (c["fn"] == "both" or "wf" in c["kw"]))  # noqa: E731
    for k in C.options(opt, ok, 3 if tier == "thorough" else 2):
        lead, zs = k.pop("shape")
        if k["model"] == "d4s":
            k["refs"] = [0, 2]
        add(k.pop("fn"), Z=zs, lead=lead, cns="num", **k)
    for lead, zs in C.SHAPES[3:7]:
        add("dcn", Z=[[min(z, 3) for z in r] for r in zs[:2]], lead=[2], mag=True)
    add("dcn", Z=[[1, 2], [0, 3], [9, 1], [2, 0]], lead=[2, 2], mag=True, ref="gfn2", kw=dict(wf=5.0, gc=1.5))
    add("autocn", Z=[[1, 2], [0, 3]])
    if tier == "thorough":
        for a in range(1, 104, 4):
            add("dq", Z=list(range(a, min(a + 4, 104))))
            add("autocn", Z=list(range(a, min(a + 4, 104))))
            add("both", Z=list(range(a, min(a + 4, 104))))
        for a in range(2, 104, 20):
            add("dcn", Z=[a, 104 - a], mag=True)
    return J
