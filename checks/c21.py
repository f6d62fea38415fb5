"""C21: converted and copied objects behave like the original."""

import copy
import pickle

import torch

from . import common as C

EXPLANATION = """
Models, methods, cutoffs and terms are converted with .type() / .to() and
copied with copy / pickle; original and result then run on the same symbolic
coordination numbers, charges, geometries and parameters.  z3 shows that a
converted object gives what one created in that precision gives (to single
precision where stored numbers were rounded), that a copy gives what the
original gives, that settings survive, that the original is unchanged and that
terms registered on one are not registered on the other.
"""
ASSUMPTIONS = ["CPU only", "float32 and float64", "distances >= 0.5 bohr"]

F32, F64 = torch.float32, torch.float64
DTS = {"f32": F32, "f64": F64}
TOL = 2e-6  # stored single precision numbers

HOW = {
    "type": lambda o, dt: o.type(dt),
    "to": lambda o, dt: o.to(dtype=dt),
    "todev": lambda o, dt: o.to(device=torch.device("cpu"), dtype=dt),
    "twice": lambda o, dt: o.type(F32 if dt == F64 else F64).type(dt),
    "deepcopy": lambda o, dt: copy.deepcopy(o),
    "copy": lambda o, dt: copy.copy(o),
    "pickle": lambda o, dt: pickle.loads(pickle.dumps(o)),
    "cpu": lambda o, dt: o.cpu(),
}
COPIES = ("deepcopy", "copy", "pickle")
KEEPS = ("deepcopy", "copy", "pickle", "cpu")


def _model(cfg, num, dt, like=None, how=None):
    """A new model; like: with the stored numbers of another one."""
    from tad_dftd4.model import D4Model, D4SModel

    kw = dict(cfg.get("kw", {}))
    if like is not None:
        r = (lambda x: x.to(F32 if dt == F64 else F64).to(dt)) if how == "twice" else (lambda x: x.to(dt))
        kw.update(rc6=r(like.rc6), wf=r(like.wf))
    return {"d4": D4Model, "d4s": D4SModel}[cfg.get("model", "d4")](num, dtype=dt, **kw)


def _quantities(m, cn, q):
    gw = m.weight_references(cn, q)
    g2, dq = m.weight_references(cn, q, with_dgwdq=True)
    return dict(gw=gw, gw2=g2, dgwdq=dq, c6=m.get_atomic_c6(gw), pols=m.get_weighted_pols(gw), pol=m.get_polarizabilities(gw), plain=m.weight_references(), c60=m.get_atomic_c6(m.weight_references()))


def model(ctx, cfg):
    num = torch.tensor(cfg["Z"])
    src, dst = DTS[cfg["src"]], DTS[cfg["dst"]]
    how = cfg["how"]
    if how in KEEPS:
        dst = src
    flat = torch.tensor(cfg["Z"]).reshape(-1).tolist()
    cnv = [ctx.real(f"cn{i}", 0, 8) if z else ctx.lit(0) for i, z in enumerate(flat)]
    qv = [ctx.real(f"q{i}", -0.5, 0.5) if z else ctx.lit(0) for i, z in enumerate(flat)]
    T = lambda v, dt: ctx.tensor(v, dt).reshape(num.shape)  # noqa: E731
    m = _model(cfg, num, src)
    before = _quantities(m, T(cnv, src), T(qv, src))
    settings = (m.ga, m.gc, m.ref_charges, type(m))
    k = HOW[how](m, dst)
    ctx.check_bool("another object", k is not m or how not in COPIES)
    ctx.check_bool("settings", (k.ga, k.gc, k.ref_charges, type(k)) == settings)
    ctx.check_bool("dtype", k.dtype == dst and k.rc6.dtype == dst and k.wf.dtype == dst)
    ctx.check_bool("numbers", torch.equal(k.numbers, num) and not k.numbers.is_floating_point())
    got = _quantities(k, T(cnv, dst), T(qv, dst))
    new = _model(cfg, num, dst)
    for x in ("rc6", "wf"):
        ctx.check_bool(f"stored {x}", torch.allclose(getattr(k, x), getattr(new, x), rtol=TOL, atol=1e-6))
    want = _quantities(_model(cfg, num, dst, m, how), T(cnv, dst), T(qv, dst))
    for x in got:
        ctx.check_bool(f"{x}: dtype", got[x].dtype == dst)
        ctx.check_eq(x, got[x], want[x], rtol=1e-12)
    ctx.check_bool("original: dtype", m.dtype == src and m.rc6.dtype == src and m.numbers.dtype == num.dtype)
    after = _quantities(m, T(cnv, src), T(qv, src))
    for x in after:
        ctx.check_eq(f"original: {x}", after[x], before[x], rtol=1e-12)
    # the copy has memory of its own
    if how in ("deepcopy", "pickle"):
        with torch.no_grad():
            k.rc6.zero_()
            k.wf.zero_()
            k.numbers.zero_()
        after = _quantities(m, T(cnv, src), T(qv, src))
        ctx.check_eq("original after changing the copy", after["c6"], before["c6"], rtol=1e-12)


def _term(ctx, vals):
    from tad_dftd4.damping import RationalDamping
    from tad_dftd4.dispersion.base import DispTerm

    class T(DispTerm):
        def calculate(self, numbers, positions, *a, **k):
            return vals.to(positions.dtype)

    return T(RationalDamping(), False)


def method(ctx, cfg):
    """Composed methods: same energy, terms of their own."""
    from tad_dftd4.dispersion.base import Disp
    from tad_dftd4.dispersion.d3 import DispD3BJ, DispD3Zero
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm
    from tad_mctc.ncoord import cn_d3, gfn2_count

    src, dst = DTS[cfg["src"]], DTS[cfg["dst"]]
    how = cfg["how"]
    if how in KEEPS:
        dst = src
    S = C.system(ctx, cfg)
    sysm, lead = cfg["Z"], cfg["lead"]
    nb, n = len(sysm), len(sysm[0])
    num = torch.tensor(sysm).reshape(*lead, n)
    cls = dict(disp=DispD4, exact=DispD4Exact, d3bj=DispD3BJ, d3zero=DispD3Zero, disp2=Disp)[cfg["route"]]

    made = []
    own = [[ctx.real(f"u{j}{i}", -1, 1) for i in range(nb * n)] for j in range(cfg.get("extra", 0))]

    def make(dt, like=None):
        mdl, kw = cfg.get("model", "d4"), {}
        mk = dict(ref_charges="gfn2", ga=2.5) if cfg.get("mk") else {}
        if cfg.get("instance"):
            mdl = _model(dict(model=mdl, kw=mk), num, dt, like, how)
            made.append(mdl)
        elif mk:
            kw["model_kwargs"] = mk
        if cfg.get("cnf"):
            kw.update(cn_fn=cn_d3, cn_fn_kwargs={"counting_function": gfn2_count})
        d = cls(model=mdl, dtype=dt, **kw)
        if cfg["route"] == "disp2":
            d.register(TwoBodyTerm(damping_fn=C.damping(cfg.get("damping", "rational"))))
        for j in range(cfg.get("extra", 0)):  # terms of the user
            d.register(_term(ctx, ctx.tensor(own[j]).reshape(*lead, n)))
        return d

    def run(d, dt):
        T = lambda x, *tail: ctx.tensor(x, dt).reshape([*lead, *tail])  # noqa: E731
        # (charges that no term uses are refused)
        kw = dict(q=T(S["q"], n)) if any(t.charge_dependent for t in d.terms) else {}
        par = C.tparams(ctx, S["par"], dt)
        if cfg["route"].startswith("d3"):
            par["rs9"] = ctx.tensor(4 / 3, dt)
        return d.calculate(num, T(S["pos"], n, 3), torch.zeros([*lead, 1] if lead else [], dtype=dt), par, **kw)

    d = make(src)
    e0 = run(d, src)
    k = HOW[how](d, dst)
    ctx.check_bool("another object", k is not d or how not in COPIES)
    ctx.check_bool("dtype", k.dtype == dst and d.dtype == src and type(k) is type(d))
    e1 = run(k, dst)
    ctx.check_bool("dtype of the energy", e1.dtype == dst)
    ctx.check_eq("energy of the new object", e1, run(make(dst, made[0] if made else None), dst), rtol=1e-12)
    if how == "copy" or k is d:
        return ctx.check_eq("original", run(d, src), e0, rtol=1e-12)
    # histories are separate
    v = [ctx.real(f"t{i}", -1, 1) for i in range(nb * n)]
    t = _term(ctx, ctx.tensor(v).reshape(*lead, n))
    k.register(t)
    ctx.check_eq("original after registering on the new object", run(d, src), e0, rtol=1e-12)
    e2 = run(k, dst)
    ctx.check_eq("new object", e2, e1 + t.calculate(None, e1), rtol=1e-12)
    k.deregister(t)
    while d.terms:
        d.deregister(d.terms[0])
    ctx.check_eq("new object after removing from the original", run(k, dst), e1, rtol=1e-12)
    ctx.check_eq("nothing left", ctx.entries(run(d, src)), [ctx.lit(0)] * (nb * n))


def cutoff(ctx, cfg):
    """Cutoffs keep their values."""
    from tad_dftd4.cutoff import Cutoff

    src, dst = DTS[cfg["src"]], DTS[cfg["dst"]]
    how = cfg["how"]
    if how in KEEPS:
        dst = src
    names = ("disp2", "disp3", "cn", "cn_eeq")
    if how in ("deepcopy", "pickle", "copy") or cfg.get("num"):
        v = dict(zip(names, (41.5, 23.25, 17.125, 9.0625)))
        c = Cutoff(**v, dtype=src)
    else:
        v = {k: ctx.real(k, 0, 500) for k in names}
        c = Cutoff(**{k: ctx.tensor(x, src) for k, x in v.items()}, dtype=src)
    k = HOW[how](c, dst)
    ctx.check_bool("another object", k is not c or how not in COPIES)
    ctx.check_bool("dtype", k.dtype == dst and c.dtype == src)
    for x in names:
        a = getattr(k, x)
        w = getattr(c, x)
        ctx.check_bool(f"{x}: dtype", a.dtype == dst)
        if how == "twice":
            w = w.to(F32 if dst == F64 else F64)
        ctx.check_eq(x, ctx.entries(a), ctx.entries(w.to(dst)))
        ctx.check_eq(f"{x}: original", ctx.entries(getattr(c, x)), [ctx.lit(v[x]) if isinstance(v[x], float) else v[x]])
    ctx.check_bool("some value", ctx.real("one", 0, 1) is not None)


def term(ctx, cfg):
    """Terms keep damping function and charge dependence."""
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    x = ctx.real("x", 0, 1)
    for cls in (TwoBodyTerm, D4ATMApprox, D4ATMExact, D3ATM):
        for dep in (False, True):
            for kind in ("rational", "zero", "mzero", "op") if cls is TwoBodyTerm else (None,):
                t = cls(charge_dependent=dep, **({} if kind is None else {"damping_fn": C.damping(kind)}))
                k = HOW[cfg["how"]](t, DTS[cfg["dst"]])
                ctx.check_bool(f"{cls.__name__} {dep} {kind}", type(k) is cls and k.charge_dependent is dep and type(k.damping_fn) is type(t.damping_fn) and k == t)
    ctx.check_eq("x", [x], [x])


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    conv = ("type", "to", "todev", "twice", "deepcopy", "copy", "pickle", "cpu")
    opt = dict(
        how=list(conv), src=["f64", "f32"], dst=["f32", "f64"], model=["d4", "d4s"], Z=[[6, 8], [[6, 1], [8, 0]], [0, 79], [3]],
        kw=[C.NO, dict(ref_charges="gfn2"), dict(ga=2.5, gc=1.5), dict(wf=4.0), dict(ref_charges="gfn2", wf=7.5, ga=0.0)],
    )
    for k in C.options(opt, t=3 if tier == "thorough" else 2):
        add("model", **k)
    opt = dict(
        how=list(conv), src=["f64", "f32"], dst=["f32", "f64"], route=["disp", "exact", "d3bj", "d3zero", "disp2"], model=["d4", "d4s"], shape=C.SHAPES,
        mk=[C.NO, True], instance=[C.NO, True], cnf=[C.NO, True], damping=["rational", "op", "zero", "mzero"], extra=[C.NO, 1, 2, 3],
    )

    def ok(c):
        # (terms of a class made here cannot be pickled)
        if c["how"] == "pickle" and c["extra"] is not C.NO:
            return False
        if c["route"] == "d3zero":
            return c["damping"] == "zero"
        return c["damping"] == "rational" or c["route"] == "disp2"

    for k in C.options(opt, ok, t=3 if tier == "thorough" else 2):
        lead, zs = k.pop("shape")
        more = dict(plus=["a1", "a2"]) if k["route"] == "d3zero" else {}
        add("method", Z=zs, lead=lead, grid=True, **more, **k)
    for how in conv:
        for s in ("f64", "f32"):
            for t in ("f32", "f64"):
                add("cutoff", how=how, src=s, dst=t)
        add("cutoff", how=how, src="f64", dst="f32", num=True)
        if how != "twice":
            add("term", how=how, dst="f64")
    return J
