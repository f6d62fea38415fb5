"""C15: inconsistent input is refused, never silently broadcast or ignored."""

import itertools

import torch

from symt.poly import Unsupported

from . import common as C

EXPLANATION = """
Every entry point is called with one argument of a wrong shape (all shapes of
up to three dimensions of extent 1..3 other than the correct one) and symbolic
contents; on every feasible path the call must end in ValueError, so no content
can make a wrong shape pass.  Unknown models and reference charges, missing
radii, charges given to a method that cannot use them, and the acceptance of
the correct shapes (with the value of the law of C01/C02) are covered too.
"""
ASSUMPTIONS = ["wrong shapes: up to 3 dimensions of extent 1..3"]


def raises(ctx, label, exc, f):
    try:
        f()
    except Unsupported:
        raise
    except exc:
        return ctx.check_bool(label, True)
    except Exception as ex:  # noqa: BLE001
        return ctx.check_bool(f"{label} (got {type(ex).__name__})", False)
    ctx.check_bool(f"{label} (accepted)", False)


def shapes(ok, maxd=3, ext=(1, 2, 3)):
    out = []
    for d in range(maxd + 1):
        for s in itertools.product(ext, repeat=d):
            if s != tuple(ok):
                out.append(s)
    return out


def _num(cfg):
    return torch.tensor(cfg["Z"])


def _filled(ctx, name, shp, lo, hi):
    """Tensor with one symbol per entry (pairwise different entries)."""
    n = 1
    for x in shp:
        n *= x
    return ctx.tensor([ctx.real(f"{name}{k}", lo, hi) for k in range(n)]).reshape(shp)


def _call(ctx, cfg, num, pos, **kw):
    from tad_dftd4 import dftd4
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    par = dict(s6=1.0, s8=0.8, s9=1.0, a1=0.4, a2=4.8, alp=14.0, rs6=1.1, rs8=1.0)
    r = cfg["route"]
    chg = torch.zeros((*num.shape[:-1], 1), dtype=C.DT) if num.ndim > 1 else torch.tensor(0.0, dtype=C.DT)
    if r == "props":
        from tad_dftd4 import get_properties

        return get_properties(num, pos, chg)
    if r == "dftd4":
        return dftd4(num, pos, chg, par, model=cfg.get("model", "d4"), **kw)
    if r == "zero":
        d = Disp(dtype=C.DT)
        d.register(TwoBodyTerm(damping_fn=C.damping("zero")))
        return d.calculate(num, pos, chg, par, **kw)
    if r == "empty":
        return Disp(dtype=C.DT).calculate(num, pos, chg, par, **kw)
    cls = DispD4 if r == "disp" else DispD4Exact
    return cls(model=cfg.get("model", "d4"), dtype=C.DT).calculate(num, pos, chg, par, **kw)


def shape(ctx, cfg):
    """One argument has a wrong shape."""
    num = _num(cfg)
    n = num.shape[-1]
    arg = cfg["arg"]
    good = {"positions": (*num.shape, 3), "rvdw": (*num.shape, n)}.get(arg, tuple(num.shape))
    pos = None
    if arg != "positions":
        flat = C.grid(num.numel())
        pos = ctx.tensor([[ctx.real(f"x{k}", r[0] - 0.3, r[0] + 0.3), r[1], r[2]] for k, r in enumerate(flat)]).reshape(*num.shape, 3)
    lo, hi = {"positions": (-6, 6), "q": (-1, 1), "rvdw": (2, 8)}.get(arg, (1, 10))
    for s in shapes(good, max(3, len(good))):
        if arg == "positions":
            if len(s) >= 1 and s[:-1] == tuple(num.shape):
                continue
            raises(ctx, f"positions {s}", ValueError, lambda: _call(ctx, cfg, num, _filled(ctx, "v", s, lo, hi)))
        else:
            raises(ctx, f"{arg} {s}", ValueError, lambda: _call(ctx, cfg, num, pos, **{arg: _filled(ctx, "v", s, lo, hi)}))


def accepts(ctx, cfg):
    """The correct shapes are accepted and used."""
    num = _num(cfg)
    n = num.shape[-1]
    flat = C.grid(num.numel())
    pos = ctx.tensor(flat).reshape(*num.shape, 3)
    arg = cfg["arg"]
    good = (*num.shape, n) if arg == "rvdw" else tuple(num.shape)
    lo, hi = {"q": (-0.5, 0.5), "rvdw": (2, 8)}.get(arg, (1, 10))
    t = _filled(ctx, "v", good, lo, hi)
    if arg == "rvdw":
        t = t + t.mT
    e = _call(ctx, cfg, num, pos, **{arg: t})
    ctx.check_bool(f"{arg}: shape of the result", tuple(e.shape) == tuple(num.shape))
    ctx.check_finite(f"{arg}: finite", e)


def keys(ctx, cfg):
    """Unknown names."""
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d4 import DispD4
    from tad_dftd4.model import D4Model, D4SModel

    num = torch.tensor([6, 8, 1])
    pos = ctx.tensor([[ctx.real(f"x{k}", r[0] - 0.3, r[0] + 0.3), r[1], r[2]] for k, r in enumerate(C.grid(3))])
    for m in ("", "d", "d2", "d44", "d4 ", " d4", "d4ss", "instance", "D6", "gfn2"):
        raises(ctx, f"model {m!r}", ValueError, lambda: _call(ctx, dict(route="dftd4", model=m), num, pos))
        raises(ctx, f"Disp model {m!r}", ValueError, lambda: Disp(model=m))
        raises(ctx, f"DispD4 model {m!r}", ValueError, lambda: DispD4(model=m))
    for cls in (D4Model, D4SModel):
        for r in ("", "EEQ_", "gfn1", "eeq ", "none", None):
            raises(ctx, f"{cls.__name__} reference charges {r!r}", ValueError, lambda: cls(num, ref_charges=r, dtype=C.DT))
            # also when the reference coefficients are handed in
            def f():
                m = cls(num, ref_charges=r, rc6=ctx.tensor([[ctx.real("c", 1, 9)]]), dtype=C.DT)
                m.weight_references(ctx.tensor([ctx.real(f"cn{k}", 0, 4) for k in range(3)]))
            raises(ctx, f"{cls.__name__} weights, reference charges {r!r}", ValueError, f)
            raises(ctx, f"{cls.__name__} kwargs, reference charges {r!r}", ValueError, lambda: DispD4(model="d4" if cls is D4Model else "d4s", model_kwargs={"ref_charges": r}, dtype=C.DT).calculate(num, pos, 0.0, dict(s6=1.0, s8=1.0, a1=0.4, a2=4.0, s9=1.0)))
    # names are not case-sensitive
    for a, b in (("d4", "D4"), ("d4s", "D4S"), ("d4s", "D4s")):
        x = _call(ctx, dict(route="dftd4", model=a), num, pos)
        y = _call(ctx, dict(route="dftd4", model=b), num, pos)
        ctx.check_eq(f"model {b}", ctx.entries(y), ctx.entries(x))


def unused(ctx, cfg):
    """Charges that nothing would use; radii that are needed."""
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import D4ATMApprox
    from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

    num = torch.tensor(cfg["Z"])
    nb = num.numel()
    flat = C.grid(nb)
    pos = ctx.tensor([[ctx.real(f"x{k}", r[0] - 0.3, r[0] + 0.3), r[1], r[2]] for k, r in enumerate(flat)]).reshape(*num.shape, 3)
    q = _filled(ctx, "q", tuple(num.shape), -0.5, 0.5)
    par = dict(s6=1.0, s8=0.8, s9=1.0, a1=0.4, a2=4.8, alp=14.0, rs6=1.1, rs8=1.0)
    T2 = TwoBodyTerm(charge_dependent=False)
    A = D4ATMApprox(charge_dependent=False)
    A3 = D3ATM(charge_dependent=False)
    sets = {"none": [], "two": [T2], "atm": [A], "two+atm": [T2, A], "d3": [T2, A3]}
    chg = torch.zeros(num.shape[:-1], dtype=C.DT) if num.ndim == 2 else 0
    for k, ts in sets.items():
        d = Disp(dtype=C.DT)
        for t in ts:
            d.register(t)
        raises(ctx, f"unused charges, terms {k}", RuntimeError, lambda: d.calculate(num, pos, chg, par, q=q))
        e = d.calculate(num, pos, chg, par)
        ctx.check_bool(f"terms {k} without charges", tuple(e.shape) == tuple(num.shape))
    # one charge-dependent term is enough, in any place
    for ts in ([TwoBodyTerm()], [T2, D4ATMApprox(charge_dependent=True)], [A, TwoBodyTerm()]):
        d = Disp(dtype=C.DT)
        for t in ts:
            d.register(t)
        ctx.check_finite("charges are used", d.calculate(num, pos, chg, par, q=q))
    c6 = ctx.tensor([ctx.real(f"c{i}", 1, 50) for i in range(nb * num.shape[-1])]).reshape(*num.shape, num.shape[-1])
    r4 = _filled(ctx, "r", tuple(num.shape), 1, 9)
    for k in ("zero", "mzero"):
        p = dict(par, bet=0.1)
        raises(ctx, f"{k} damping without radii", ValueError, lambda: dispersion2(num, pos, p, c6, r4, None, C.damping(k)))
        raises(ctx, f"{k} damping without radii (matrix)", ValueError, lambda: dispersion2(num, pos, p, c6, r4, damping_function=C.damping(k), as_matrix=True))
    for k in ("rational", "op"):
        p = dict(par, bet=0.1)
        ctx.check_finite(f"{k} damping needs no radii", dispersion2(num, pos, p, c6, r4, None, C.damping(k)))

    class Odd(type(C.damping("rational"))):
        radius_type = "r4r3"

    raises(ctx, "unknown kind of radius", ValueError, lambda: dispersion2(num, pos, par, c6, r4, None, Odd()))


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    Zs = [[6, 8, 1], [8, 1], [[6, 8], [1, 0]], [6]]
    for Z in ([[6, 8]], [[6]], [[6], [8]], [[[6, 8]]]):
        # batches of one, of single atoms, two batch dimensions
        for a in ("positions", "r4r2", "rvdw", "rcov", "q"):
            add("shape", route="dftd4", Z=Z, arg=a)
    for Z in ([6, 8, 1], [[6, 8]], [[6, 8], [1, 0]], [6]):
        add("shape", route="props", Z=Z, arg="positions")
    for Z in Zs:
        for a in ("positions", "r4r2", "rvdw", "rcov", "q"):
            add("shape", route="dftd4", Z=Z, arg=a)
            if a != "positions" and Z is not Zs[3]:
                add("accepts", route="dftd4", Z=Z, arg=a)
    for r in ("disp", "exact", "zero"):
        for a in ("positions", "r4r2", "rvdw", "rcov", "q"):
            add("shape", route=r, Z=[[6, 8], [1, 0]], arg=a)
            if tier == "thorough":
                add("shape", route=r, Z=[6, 8, 1], arg=a)
    for a in ("r4r2", "rvdw", "q"):
        add("accepts", route="zero", Z=[[6, 8], [1, 0]], arg=a)
        add("shape", route="dftd4", model="d4s", Z=[[6, 8], [7, 1]], arg=a)
    add("keys")
    add("unused", Z=[6, 8, 1])
    add("unused", Z=[[6, 8], [1, 0]])
    return J
