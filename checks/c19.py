"""C19: a dispersion method is the sum of its registered terms."""

import torch

from . import common as C
from .c15 import raises

EXPLANATION = """
Disp objects are composed from built-in and from user-written terms (which
return arbitrary symbolic energies and record what they were given); z3 shows
that the result is the sum of the registered terms for every value, that each
term sees the coordination numbers, charges, radii, cutoffs, model and
parameters it must, that a term not marked charge-dependent is unaffected by
the charges, and that register / deregister histories leave exactly the
remaining terms, on that object only.  The DFT-D3-type composites evaluate
their published sum.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr", "at most 4 terms per method"]


def _base(ctx, cfg):
    Z = cfg["Z"]
    sysm = Z if isinstance(Z[0], list) else [Z]
    nb, n = len(sysm), len(sysm[0])
    lead = [nb] if isinstance(Z[0], list) else []
    S = C.system(ctx, dict(cfg, Z=sysm, q=cfg.get("q", "sym")))
    num = torch.tensor(sysm).reshape(*lead, n)
    pos = ctx.tensor(S["pos"]).reshape(*lead, n, 3)
    q = None if S["q"] is None else ctx.tensor(S["q"]).reshape(*lead, n)
    chg = torch.zeros(lead, dtype=C.DT) if not lead or nb > 1 else torch.zeros(1, 1, dtype=C.DT)
    return sysm, nb, n, lead, S, num, pos, q, chg


def custom(ctx, cfg):
    """User-written terms: sum, arguments, histories."""
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.damping import RationalDamping
    from tad_dftd4.dispersion.base import Disp, DispTerm
    from tad_dftd4.model import D4Model

    sysm, nb, n, lead, S, num, pos, q, chg = _base(ctx, cfg)
    seen = []

    class T(DispTerm):
        def __init__(self, name, dep=False):
            super().__init__(RationalDamping(), dep)
            self.name = name

        __slots__ = ("name",)

        def __eq__(self, o):
            return self is o

        __hash__ = None

        def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
            seen.append((self.name, dict(numbers=numbers, positions=positions, param=param, cn=cn, model=model, q=q, r4r2=r4r2, rvdw=rvdw, cutoff=cutoff)))
            return vals[self.name]

    names = ["a", "b", "c", "d"]
    raw = {k: [ctx.real(f"e{k}{i}", -1, 1) for i in range(nb * n)] for k in names}
    vals = {k: ctx.tensor(v).reshape(*lead, n) for k, v in raw.items()}
    dep = cfg.get("dep", False)
    t = {k: T(k, dep and k == cfg.get("which", "b")) for k in names}
    CN = ctx.tensor([ctx.real(f"cn{i}", 0, 5) for i in range(nb * n)]).reshape(*lead, n)
    calls = []

    def cnf(numbers, positions, **kw):
        calls.append((numbers, positions, kw))
        return CN

    model = D4Model(num, dtype=C.DT)
    d = Disp(model=model, cn_fn=cnf, cn_fn_kwargs={"x": 3}, dtype=C.DT)
    other = Disp(model=model, cn_fn=cnf, dtype=C.DT)
    cut = Cutoff(disp2=ctx.tensor(ctx.real("cut2", 5, 50)), disp3=ctx.tensor(ctx.real("cut3", 5, 50)), dtype=C.DT)
    par = {"s6": ctx.tensor(ctx.real("s6", 0, 2))}
    kw = dict(cutoff=cut)
    if cfg.get("overrides"):
        kw["r4r2"] = ctx.tensor(S["r4r2"]).reshape(*lead, n)
        kw["rvdw"] = ctx.tensor(S["rvdw"]).reshape(*lead, n, n)
    if dep and cfg.get("give", True):
        kw["q"] = q
    have = []

    def check(label):
        seen.clear()
        calls.clear()
        if "q" in kw and not any(t[k].charge_dependent for k in have):
            return raises(ctx, f"{label}: unused charges", RuntimeError, lambda: d.calculate(num, pos, chg, par, **kw))
        e = ctx.entries(d.calculate(num, pos, chg, par, **kw))
        want = [ctx.sum([raw[k][i] for k in have]) if have else ctx.lit(0) for i in range(nb * n)]
        ctx.check_eq(f"{label}: sum of the terms", e, want)
        ctx.check_bool(f"{label}: every term once", sorted(s[0] for s in seen) == sorted(have))
        for nm, a in seen:
            ctx.check_bool(f"{label}: objects", a["model"] is model and set(a["param"]) == {"s6"})
            ctx.check_eq(f"{label}: cutoffs", ctx.entries(a["cutoff"].disp2) + ctx.entries(a["cutoff"].disp3), ctx.entries(cut.disp2) + ctx.entries(cut.disp3))
            ctx.check_bool(f"{label}: numbers", torch.equal(a["numbers"], num))
            ctx.check_eq(f"{label}: positions", ctx.entries(a["positions"]), ctx.entries(pos))
            ctx.check_eq(f"{label}: coordination numbers", ctx.entries(a["cn"]), ctx.entries(CN))
            ctx.check_eq(f"{label}: parameters", ctx.entries(a["param"]["s6"]), ctx.entries(par["s6"]))
            from tad_mctc.data import VDW_PAIRWISE

            T4 = C.tables()["r4r2"]
            r4 = kw.get("r4r2", torch.tensor([[T4[z] for z in s] for s in sysm], dtype=C.DT))
            rv = kw.get("rvdw", VDW_PAIRWISE(dtype=C.DT)[num.unsqueeze(-1), num.unsqueeze(-2)])
            ctx.check_eq(f"{label}: r4r2", ctx.entries(a["r4r2"]), ctx.entries(r4))
            ctx.check_eq(f"{label}: rvdw", ctx.entries(a["rvdw"]), ctx.entries(rv))
            if any(t[k].charge_dependent for k in have):
                want_q = q if "q" in kw else ctx.eeq(num, pos, chg, torch.tensor(25.0, dtype=C.DT))
                ctx.check_bool(f"{label}: charges are there", a["q"] is not None)
                ctx.check_eq(f"{label}: charges", ctx.entries(a["q"]), ctx.entries(want_q))
        ctx.check_bool(f"{label}: cn function", len(calls) >= 1 and all(c[2] == {"x": 3} and torch.equal(c[0], num) for c in calls))
        ctx.check_bool(f"{label}: other object untouched", len(other.terms) == 0 and len(Disp.TERMS) == 0)

    check("empty")
    for op in cfg["history"]:
        k = op[-1]
        if op[0] == "+":
            d.register(t[k])
            have.append(k)
        else:
            d.deregister(t[k])
            have.remove(k)
        check(op)


def sequences(ctx, cfg):
    """Every history of a given length: registered minus removed terms."""
    import itertools

    from tad_dftd4.damping import RationalDamping
    from tad_dftd4.dispersion.base import Disp, DispTerm
    from tad_dftd4.model import D4Model

    num = torch.tensor([6, 8])
    pos = torch.tensor([[0.0, 0.0, 0.0], [0.0, 0.0, 2.5]], dtype=C.DT)
    names = cfg["names"]
    raw = {k: ctx.real(f"e{k}", -1, 1) for k in names}
    val = {k: ctx.tensor([v, -v]) for k, v in raw.items()}

    def mk(k):
        class T(DispTerm):
            def calculate(self, *a, **kw):
                return val[k]

        T.__name__ = f"Term{k}"
        return T

    cls = {k: mk(k) for k in names}
    # objects: one per name, or an equal one for every operation
    obj = {k: cls[k](RationalDamping(), False) for k in names}
    new = cfg.get("fresh")
    model = D4Model(num, dtype=C.DT)
    get = lambda k: cls[k](RationalDamping(), False) if new else obj[k]  # noqa: E731
    cn = torch.zeros(2, dtype=C.DT)
    got, want = [], []
    refused = True
    for ops in itertools.product([(s, k) for s in "+-" for k in names], repeat=cfg["len"]):
        d = Disp(model=model, cn_fn=lambda *a, **k: cn, dtype=C.DT)
        have = []
        good = True
        for s, k in ops:
            if s == "+":
                d.register(get(k))
                have.append(k)
            elif k in have:
                d.deregister(get(k))
                have.remove(k)
            else:
                # not registered: an error, and nothing changes
                try:
                    d.deregister(get(k))
                    refused = good = False
                except ValueError:
                    pass
        if not good:
            break
        e = d.calculate(num, pos, 0, {})
        got.append(ctx.entries(e)[0])
        want.append(ctx.sum([raw[k] for k in have]) if have else ctx.lit(0))
        got.append(ctx.entries(e)[1])
        want.append(ctx.lit(0) - (ctx.sum([raw[k] for k in have]) if have else ctx.lit(0)))
    ctx.check_bool("removing a term that is not there is refused", refused)
    ctx.check_eq("sum of the remaining terms", got, want)


def builtin(ctx, cfg):
    """Sum of built-in terms equals the terms alone, in any order."""
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    sysm, nb, n, lead, S, num, pos, q, chg = _base(ctx, cfg)
    par = dict(s6=1.0, s8=0.8, s9=1.0, a1=0.4, a2=4.8, alp=14.0, rs6=1.1, rs8=1.0, rs9=4 / 3)
    mk = lambda k, dep: {"two": lambda: TwoBodyTerm(damping_fn=C.damping(cfg.get("damping", "rational")), charge_dependent=dep), "approx": lambda: D4ATMApprox(charge_dependent=dep), "exact": lambda: D4ATMExact(charge_dependent=dep), "d3": lambda: D3ATM(charge_dependent=dep)}[k]()  # noqa: E731

    def run(ts, qq, **kw):
        d = Disp(model=cfg.get("model", "d4"), dtype=C.DT)
        for k, dep in ts:
            d.register(mk(k, dep))
        if qq is not None:
            kw["q"] = qq
        return ctx.entries(d.calculate(num, pos, chg, par, **kw))

    ts = cfg["terms"]
    anyd = any(d for _, d in ts)
    tot = run(ts, q if anyd else None)
    parts = [run([x], q if x[1] else None) for x in ts]
    ctx.check_eq("sum of the terms alone", tot, [ctx.sum([p[i] for p in parts]) for i in range(len(tot))])
    ctx.check_eq("order of the terms", run(ts[::-1], q if anyd else None), tot)
    # a term without charges equals the charge-dependent one at q = 0
    for k, _ in ts:
        z = torch.zeros(num.shape, dtype=C.DT)
        ctx.check_eq(f"{k}: no charges means q = 0", run([(k, False)], None), run([(k, True)], z))


def d3like(ctx, cfg):
    """DFT-D3-type composites against the published sum (C6 of the given model)."""
    from tad_dftd4.dispersion.d3 import DispD3BJ, DispD3Zero
    from tad_dftd4.model import D4Model, D4SModel
    from tad_mctc.data import VDW_PAIRWISE
    from tad_mctc.ncoord import cn_d4

    from . import c02

    sysm, nb, n, lead, S, num, pos, q, chg = _base(ctx, dict(cfg, q="none"))
    mkey = cfg.get("model", "d4")
    m = {"d4": D4Model, "d4s": D4SModel}[mkey](num, dtype=C.DT) if cfg.get("instance") else mkey
    bj = cfg["kind"] == "bj"
    p = C.params(ctx, ["s6", "s8", "s9", "rs9", "alp"] + (["a1", "a2"] if bj else ["rs6", "rs8"]), cfg.get("fixed"))
    omit = cfg.get("omit", [])
    d = (DispD3BJ if bj else DispD3Zero)(model=m, dtype=C.DT)
    e = ctx.entries(d.calculate(num, pos, chg, {k: ctx.tensor(v) for k, v in p.items() if k not in omit}))
    full = dict(p)
    for k in omit:
        full[k] = ctx.lit({"s6": 1, "s9": 1, "rs9": 1, "alp": 16, "rs6": 1, "rs8": 1}[k])
    vd = VDW_PAIRWISE(dtype=C.DT)
    cn = ctx.entries(cn_d4(num, pos))
    want = []
    for b in range(nb):
        Z = sysm[b]
        rv = [[ctx.lit(float(vd[x, y])) for y in Z] for x in Z]
        c = cn[b * n : b * n + n]
        z = [ctx.lit(0)] * n
        e2 = C.full_energy(ctx, Z, S["pos"][b], c, z, full, model=mkey, kind="rational" if bj else "zero", three=False, rvdw=rv)
        c6, _ = C.c6_table(ctx, Z, c, z, mkey)
        e3 = c02.expected(ctx, Z, S["pos"][b], lambda i, j: full["rs9"] * rv[i][j], lambda i, j, k: ctx.sqrt(ctx.abs(c6[i][j] * c6[j][k] * c6[i][k])), full["s9"], full["alp"], ctx.lit(40))
        want += [x + y for x, y in zip(e2, e3)]
    ctx.check_eq("D3-type energy", e, want)


def defaults(ctx, cfg):
    """Constructing methods: default coordination number, isolation of TERMS."""
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion import d3, d4
    from tad_dftd4.dispersion.twobody import TwoBodyTerm
    from tad_dftd4.model import D4Model, D4SModel
    from tad_mctc.ncoord import cn_d3, cn_d4

    num = torch.tensor([6, 8, 1])
    q = ctx.tensor([ctx.real(f"q{i}", -0.5, 0.5) for i in range(3)])
    pos = ctx.tensor([[ctx.real(f"x{k}", r[0] - 0.3, r[0] + 0.3), r[1], r[2]] for k, r in enumerate(C.grid(3))])
    for m, f in () if cfg.get("cls") else (("d3", cn_d3), ("d4", cn_d4), ("d4s", cn_d4), ("d5", cn_d3), ("D4", cn_d4), (D4Model(num, dtype=C.DT), cn_d4), (D4SModel(num, dtype=C.DT), cn_d4)):
        d = Disp(model=m, dtype=C.DT)
        ctx.check_eq(f"coordination number of {m if isinstance(m, str) else type(m).__name__}", ctx.entries(d.cn_fn(num, pos)), ctx.entries(f(num, pos)))
    par = dict(s6=1.0, s8=0.8, s9=1.0, a1=0.4, a2=4.8, rs6=1.0, rs8=1.0, rs9=1.0, alp=14.0)
    for cls in [c for c in (d4.DispD4, d4.DispD4Exact, d3.DispD3BJ, d3.DispD3Zero) if c.__name__ == cfg.get("cls")]:
        a = cls(model="d4", dtype=C.DT)
        kw = dict(q=q) if cls in (d4.DispD4, d4.DispD4Exact) else {}
        e0 = ctx.entries(a.calculate(num, pos, 0, par, **kw))
        a.register(TwoBodyTerm(charge_dependent=False))
        e1 = ctx.entries(a.calculate(num, pos, 0, par, **kw))
        b = cls(model="d4", dtype=C.DT)
        ctx.check_eq(f"{cls.__name__}: a new object has the standard terms", ctx.entries(b.calculate(num, pos, 0, par, **kw)), e0)
        x = Disp(model="d4", dtype=C.DT)
        x.register(TwoBodyTerm(charge_dependent=False))
        ex = ctx.entries(x.calculate(num, pos, 0, par))
        ctx.check_eq(f"{cls.__name__}: extra term", e1, [u + v for u, v in zip(e0, ex)])
        # what is done to the terms of one object stays there
        y = cls(model="d4", dtype=C.DT)
        ctx.check_bool(f"{cls.__name__}: terms not shared", not any(u is v for u in y.terms for v in [*a.terms, *b.terms]))
        for u in y.terms:
            u.charge_dependent = not u.charge_dependent
            u.damping_fn = C.damping("op")
        for w, o in (("earlier", b), ("new", cls(model="d4", dtype=C.DT))):
            ctx.check_eq(f"{cls.__name__}: {w} object after changing the terms of another", ctx.entries(o.calculate(num, pos, 0, par, **kw)), e0)
        while a.terms:
            a.deregister(a.terms[0])
        ctx.check_eq(f"{cls.__name__}: no terms", ctx.entries(a.calculate(num, pos, 0, par)), [ctx.lit(0)] * 3)
        c = cls(model="d4", dtype=C.DT)
        ctx.check_eq(f"{cls.__name__}: new object after removal", ctx.entries(c.calculate(num, pos, 0, par, **kw)), e0)


def counting(ctx, cfg):
    """cn_function / counting_function reach the coordination number."""
    from tad_dftd4 import dftd4
    from tad_mctc.ncoord import cn_d3, cn_d4, exp_count, gfn2_count

    num = torch.tensor(cfg["Z"])
    n = len(cfg["Z"])
    pos = ctx.tensor(ctx.positions("p", n, coords=None if n == 2 else C.grid(n)))
    par = dict(s6=1.0, s8=0.8, s9=1.0, a1=0.4, a2=4.8)
    q = ctx.tensor([ctx.real(f"q{i}", -0.5, 0.5) if n > 2 else [0.1, -0.2][i] for i in range(n)])
    for f in (exp_count, gfn2_count):
        cn = cn_d4(num, pos, counting_function=f)
        a = dftd4(num, pos, 0, par, q=q, counting_function=f)
        b = dftd4(num, pos, 0, par, q=q, cn_function=lambda numbers, positions, **k: cn)
        ctx.check_eq(f"counting function {f.__name__}", ctx.entries(a), ctx.entries(b))
    cn = cn_d3(num, pos, counting_function=exp_count)
    a = dftd4(num, pos, 0, par, q=q, cn_function=cn_d3, counting_function=exp_count)
    b = dftd4(num, pos, 0, par, q=q, cn_function=lambda numbers, positions, **k: cn)
    ctx.check_eq("cn_d3", ctx.entries(a), ctx.entries(b))
    cn = cn_d4(num, pos)
    a = dftd4(num, pos, 0, par, q=q)
    b = dftd4(num, pos, 0, par, q=q, cn_function=lambda numbers, positions, **k: cn)
    ctx.check_eq("default", ctx.entries(a), ctx.entries(b))


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    H = (["+a", "+b", "-a", "+c"], ["+a", "+b", "+c", "+d", "-b", "-d"], ["+b", "-b", "+a", "+b", "-a"], ["+a", "+b", "+a", "-a"], ["+a", "+b", "+a", "+a", "+b", "-a", "-b", "-a"])
    for h in H:
        add("custom", Z=[6, 8, 1], grid=True, history=h)
        add("custom", Z=[[6, 0], [8, 1]], history=h, dep=True, overrides=True)
        add("custom", Z=[6, 8], history=h, dep=True, give=False, which="a")
    add("custom", Z=[6, 8], history=["+a", "+b", "+c"], dep=True, which="a")
    add("custom", Z=[6, 8], history=["+a", "+b", "+c"], dep=True, which="c")
    two, ap, ex, d3 = ("two", True), ("approx", False), ("exact", False), ("d3", False)
    for ts in ([two, ap], [("two", False), ("approx", True)], [two, ex, d3], [two, two], [("exact", True), ap], [d3, ("two", False)]):
        add("builtin", Z=[6, 8, 1], grid=True, terms=ts)
        add("builtin", Z=[[6, 8, 0], [7, 1, 1]], grid=True, terms=ts, model="d4s", q="num")
    add("builtin", Z=[6, 8, 1], grid=True, terms=[two, ap, d3], damping="zero")
    for kind in ("bj", "zero"):
        for m in ("d4", "d4s"):
            add("d3like", Z=[6, 8, 1], grid=True, kind=kind, model=m, instance=True)
            add("d3like", Z=[[6, 8, 0], [7, 1, 16]], grid=True, kind=kind, model=m)
        add("d3like", Z=[6, 8, 1], grid=True, kind=kind, omit=["s6", "s9", "alp"])
        add("d3like", Z=[6, 8], kind=kind, fixed=dict(alp=14))
    for fr in (False, True):
        add("sequences", names="a", len=6, fresh=fr)
        add("sequences", names="ab", len=5, fresh=fr)
        add("sequences", names="abc", len=3, fresh=fr)
        if tier == "thorough":
            add("sequences", names="ab", len=6, fresh=fr)
            add("sequences", names="abc", len=5, fresh=fr)
    add("defaults")
    for c in ("DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero"):
        add("defaults", cls=c)
    add("counting", Z=[6, 8, 1])
    add("counting", Z=[6, 1])
    return J
