"""C17: evaluations are pure: no hidden state, inputs untouched."""

import contextlib

import torch

from . import common as C

EXPLANATION = """
Two systems of equal shape with symbolic geometries, charges and parameters are
evaluated in every listed order, through the same and through fresh objects,
with results mutated by the caller, inputs overwritten in place, failing calls
in between, other grad modes, random seeds and memory layouts; z3 shows for
every value that each result equals the one of a first evaluation of that
system and that inputs, parameter dictionaries, cutoffs, models and class-level
tables still hold what they held before.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr", "histories of at most 8 calls"]


class Sys:
    """One set of symbolic inputs and the ways to evaluate it."""

    def __init__(self, ctx, cfg, tag, Z, shift, req=False):
        self.ctx, self.cfg = ctx, cfg
        sysm = Z if isinstance(Z[0], list) else [Z]
        self.lead = [len(sysm)] if isinstance(Z[0], list) else []
        nb, n = len(sysm), len(sysm[0])
        self.nb, self.n, self.sysm = nb, n, sysm
        self.rows = [
            [[ctx.real(f"{tag}x{b}_{i}", r[0] + shift - 0.2, r[0] + shift + 0.2) if cfg.get("symx") else ctx.lit(round(r[0] + shift * (1 + 0.1 * i), 3)), ctx.lit(r[1] + 0.25 * b), ctx.lit(r[2] * (1 - shift))] for i, r in enumerate(C.grid(n))]
            for b in range(nb)
        ]
        # padding coordinates are arbitrary numbers of the caller
        self.rows = [[self.rows[b][i] if sysm[b][i] else [ctx.lit(2.5 + i), ctx.lit(-1.25 - b), ctx.lit(9.75)] for i in range(n)] for b in range(nb)]
        self.qv = [[ctx.real(f"{tag}q{b}_{i}", -0.5, 0.5) if sysm[b][i] else ctx.lit(0) for i in range(n)] for b in range(nb)]
        self.pv = {k: ctx.real(f"{tag}{k}", *C.PARAMS[k]) for k in cfg.get("params", ["s6", "s8", "s9", "a1", "a2"])}
        self.build(req)

    def build(self, req=False):
        ctx = self.ctx
        L, n = self.lead, self.n
        self.num = torch.tensor(self.sysm).reshape(*L, n)
        self.pos = ctx.tensor(self.rows, requires_grad=False).reshape(*L, n, 3)
        self.q = ctx.tensor(self.qv).reshape(*L, n)
        self.chg = torch.zeros([] if not L else ([self.nb] if self.nb > 1 else [self.nb, 1]), dtype=C.DT)
        self.par = {k: ctx.tensor(v) for k, v in self.pv.items()}
        if req:
            self.pos.requires_grad_(True)

    def tensors(self):
        return dict(pos=self.pos, q=self.q, chg=self.chg, num=self.num, **{f"par_{k}": v for k, v in self.par.items()})


def make(cfg, num=None):
    """The evaluator under test: callable(sys, **kw) -> list of tensors."""
    import tad_dftd4 as d4
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import DispD3BJ
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    route, m = cfg.get("route", "dftd4"), cfg.get("model", "d4")
    if route == "dftd4":
        return lambda s, **k: [d4.dftd4(s.num, s.pos, s.chg, s.par, model=m, q=s.q, **k)]
    if route == "props":
        return lambda s, **k: list(d4.get_properties(s.num, s.pos, s.chg, **k))
    if route == "two":
        d = Disp(model=m, dtype=C.DT)
        d.register(TwoBodyTerm(damping_fn=C.damping(cfg.get("damping", "rational"))))
    else:
        d = {"disp": DispD4, "exact": DispD4Exact, "d3bj": DispD3BJ}[route](model=m, dtype=C.DT)
    if route == "d3bj":
        return lambda s, **k: [d.calculate(s.num, s.pos, s.chg, s.par, **k)]
    return lambda s, **k: [d.calculate(s.num, s.pos, s.chg, s.par, q=s.q, **k)]


def same(ctx, label, a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.check_eq(f"{label} [{k}]", x, y, rtol=1e-13)


def held(ctx, label, snap, now):
    for k, v in snap.items():
        ctx.check_bool(f"{label}: {k} shape", tuple(v[0]) == tuple(now[k].shape))
        ctx.check_eq(f"{label}: {k} unchanged", v[1], ctx.entries(now[k]))


def snap(ctx, d):
    return {k: (tuple(v.shape), ctx.entries(v)) for k, v in d.items()}


def copies(xs):
    return [x.clone() for x in xs]


def inputs(ctx, cfg):
    """Inputs, dictionaries, cutoffs, models, class tables stay as they were."""
    import tad_dftd4 as d4
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion import d3 as D3
    from tad_dftd4.dispersion import d4 as D4
    from tad_dftd4.model import D4Model, D4SModel

    s = Sys(ctx, cfg, "a", cfg["Z"], 0.0, req=cfg.get("req", False))
    cut = Cutoff(disp2=ctx.tensor(ctx.real("c2", 30, 60)), disp3=ctx.tensor(ctx.real("c3", 30, 60)), dtype=C.DT)
    m = {"d4": D4Model, "d4s": D4SModel}[cfg.get("model", "d4")](s.num, dtype=C.DT)
    r4 = ctx.tensor([[ctx.real(f"r4_{b}_{i}", 1, 9) for i in range(s.n)] for b in range(s.nb)]).reshape(*s.lead, s.n)
    rv = ctx.tensor([C.sym_matrix(ctx, f"rv{b}", s.n, 2, 7) for b in range(s.nb)]).reshape(*s.lead, s.n, s.n)
    things = dict(s.tensors(), r4r2=r4, rvdw=rv, rc6=m.rc6, wf=m.wf, mnum=m.numbers, c2=cut.disp2, c3=cut.disp3, ccn=cut.cn, ceeq=cut.cn_eeq)
    before = snap(ctx, things)
    keys = list(s.par)
    ids = {k: id(v) for k, v in s.par.items()}
    classes = [D4.DispD4, D4.DispD4Exact, D3.DispD3BJ, D3.DispD3Zero]
    terms = [[(t, dict(k) if k else k) for t, k in c.TERMS] for c in classes]
    st = torch.random.get_rng_state()
    glob = (torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled())
    route = cfg.get("route", "dftd4")
    if route == "dftd4":
        f = lambda: [d4.dftd4(s.num, s.pos, s.chg, s.par, model=m, q=s.q, r4r2=r4, rvdw=rv, cutoff=cut, damping_function=C.damping(cfg.get("damping", "rational")))]  # noqa: E731
    elif route == "props":
        f = lambda: list(d4.get_properties(s.num, s.pos, s.chg, cutoff=cut))  # noqa: E731
    elif route == "model":
        def f():
            cn = s.q * s.q + 1
            gw = m.weight_references(cn, s.q)
            out = [gw, m.get_atomic_c6(gw), m.get_weighted_pols(gw)]
            if cfg.get("model", "d4") == "d4":
                out.append(m.get_polarizabilities(gw))
            return out
    else:
        d = {"disp": D4.DispD4, "exact": D4.DispD4Exact, "d3bj": D3.DispD3BJ, "d3zero": D3.DispD3Zero}[route](model=m, dtype=C.DT)
        qk = {} if route.startswith("d3") else dict(q=s.q)
        f = lambda: [d.calculate(s.num, s.pos, s.chg, s.par, r4r2=r4, rvdw=rv, cutoff=cut, **qk)]  # noqa: E731
    a = f()
    held(ctx, "after the call", before, things)
    ctx.check_bool("parameter dictionary", list(s.par) == keys and {k: id(v) for k, v in s.par.items()} == ids)
    ctx.check_bool("class tables", [[(t, dict(k) if k else k) for t, k in c.TERMS] for c in classes] == terms)
    ctx.check_bool("random state", torch.equal(torch.random.get_rng_state(), st))
    ctx.check_bool("global settings", (torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled()) == glob)
    b = f()
    same(ctx, "second call", b, a)
    held(ctx, "after two calls", before, things)
    # the caller may do what it wants with a result
    keep = copies(a)
    with torch.no_grad():
        for x in a:
            x.zero_() if not x.requires_grad else x.detach().zero_()
    held(ctx, "after overwriting the result", before, things)
    same(ctx, "call after overwriting the result", f(), keep)


def interleave(ctx, cfg):
    """Sequences of calls on two systems, one evaluator or several."""
    A = Sys(ctx, cfg, "a", cfg["Z"], 0.0)
    B = Sys(ctx, cfg, "b", cfg["Zb"], 0.3)
    sysd = {"A": A, "B": B}
    late = cfg.get("late")  # references afterwards, in the other order
    ref = {} if late else {k: make(cfg)(s) for k, s in sysd.items()}
    got = []
    f = make(cfg)
    for i, op in enumerate(cfg["seq"]):
        if op in sysd and late:
            got.append((i, op, copies(f(sysd[op]))))
        elif op in sysd:
            same(ctx, f"call {i} ({op})", f(sysd[op]), ref[op])
        elif op == "n":  # new evaluator
            f = make(cfg)
        elif op == "e":  # a call that fails
            class Bad:
                pass

            bad = Bad()
            bad.num, bad.pos, bad.chg, bad.par, bad.q = A.num[..., :-1], A.pos, A.chg, A.par, A.q
            try:
                f(bad)
                ctx.check_bool("rejected", False)
            except (ValueError, RuntimeError, IndexError):
                pass
        elif op in ("p", "P"):  # other precision
            import copy

            o = copy.copy(sysd["A" if op == "p" else "B"])
            o.pos, o.q, o.par = o.pos.to(torch.float32), o.q.to(torch.float32), {k: v.to(torch.float32) for k, v in o.par.items()}
            o.chg = o.chg.to(torch.float32)
            make(cfg)(o) if cfg.get("route", "dftd4") in ("dftd4", "props") else None
        elif op == "s":
            torch.manual_seed(1234 + i)
            torch.rand(3)
        elif op == "g":
            with torch.no_grad():
                if late:
                    got.append((i, "A", copies(f(A))))
                else:
                    same(ctx, f"call {i} without gradients", f(A), ref["A"])
        elif op == "r":
            A.pos.requires_grad_(True)
            out = f(A)
            if late:
                got.append((i, "A", [x.detach().clone() for x in out]))
            else:
                same(ctx, f"call {i} with gradients", [x.detach() for x in out], ref["A"])
            A.pos = A.pos.detach()
    if late:
        B2, A2 = Sys(ctx, cfg, "b", cfg["Zb"], 0.3), Sys(ctx, cfg, "a", cfg["Z"], 0.0)
        ref = {"B": make(cfg)(B2), "A": make(cfg)(A2)}
        for i, op, x in got:
            same(ctx, f"call {i} ({op})", x, ref[op])


def inplace(ctx, cfg):
    """The caller overwrites its input tensors between the calls."""
    A = Sys(ctx, cfg, "a", cfg["Z"], 0.0)
    B = Sys(ctx, cfg, "b", cfg["Zb"], 0.3)
    late = cfg.get("late")  # the buffers are evaluated before the references
    ra, rb = (None, None) if late else (make(cfg)(A), make(cfg)(B))
    W = Sys(ctx, cfg, "a", cfg["Z"], 0.0)  # work buffers
    W.pos, W.q = A.pos.clone(), A.q.clone()
    W.par = {k: v.clone() for k, v in A.par.items()}
    f = make(cfg)
    first = copies(f(W))
    if not late:
        same(ctx, "buffers: A", first, ra)

    def load(S):
        W.pos.copy_(S.pos)
        W.q.copy_(S.q)
        W.num.copy_(S.num)
        for k in W.par:
            W.par[k].copy_(S.par[k])

    load(B)
    second = copies(f(W))
    if late:
        rb, ra = make(cfg)(B), make(cfg)(A)
        same(ctx, "buffers: A", first, ra)
    same(ctx, "buffers overwritten with B", second, rb)
    load(A)
    same(ctx, "and back", f(W), ra)
    # dictionary values replaced
    W.par.update(B.par)
    W.pos, W.q, W.num = B.pos, B.q, B.num
    same(ctx, "dictionary updated", f(W), rb)


def layout(ctx, cfg):
    """Memory layout of the inputs does not matter."""
    s = Sys(ctx, cfg, "a", cfg["Z"], 0.0)
    ref = make(cfg)(s)
    f = make(cfg)
    pos, q, num = s.pos, s.q, s.num
    s.pos = pos.transpose(-1, -2).clone().transpose(-1, -2)
    same(ctx, "transposed storage", f(s), ref)
    s.pos = torch.stack([pos, pos * 0 + 7.0], -1)[..., 0]
    s.q = torch.stack([q, q * 0 + 3.0], -1)[..., 0]
    s.num = torch.stack([num, num * 0 + 5], -1)[..., 0]
    same(ctx, "strided storage", f(s), ref)
    big = torch.cat([pos * 0 + 1.0, pos, pos * 0 + 2.0], -2)
    s.pos = big[..., s.n : 2 * s.n, :]
    s.q = torch.cat([q, q + 0.1], -1)[..., : s.n]
    s.num = torch.cat([num, num], -1)[..., s.n :]
    same(ctx, "slices of larger arrays", f(s), ref)
    s.pos, s.q, s.num = pos, q, num
    if s.lead:
        # the same system expanded to a batch (stride 0)
        one = Sys(ctx, cfg, "a", [cfg["Z"][0]], 0.0)
        r1 = make(cfg)(one)
        one.num = one.num.expand(3, s.n)
        one.pos = one.pos.expand(3, s.n, 3)
        one.q = one.q.expand(3, s.n)
        one.chg = torch.zeros(3, dtype=C.DT)
        e = f(one)
        for b in range(3):
            same(ctx, f"expanded batch, copy {b}", [x[b] for x in e], [x[0] for x in r1])


def stored(ctx, cfg):
    """Tensors that functions and terms of the user hand in belong to the user."""
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.damping import RationalDamping
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.base import DispTerm
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    s = Sys(ctx, cfg, "a", cfg["Z"], 0.0)
    L, n, nb = s.lead, s.n, s.nb
    T = lambda tag, lo, hi: ctx.tensor([[ctx.real(f"{tag}{b}_{i}", lo, hi) if s.sysm[b][i] else ctx.lit(0) for i in range(n)] for b in range(nb)]).reshape(*L, n)  # noqa: E731
    own = dict(cn=T("cn", 0, 4), u=T("u", -1, 1), v=T("v", -1, 1))
    if cfg.get("req"):
        own["v"].requires_grad_(True)

    def term(k, dep):
        class U(DispTerm):
            def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
                return own[k]

        return U(RationalDamping(), dep)

    def make():
        d = Disp(model=cfg.get("model", "d4"), cn_fn=lambda num, pos, **k: own["cn"], dtype=C.DT)
        for t in cfg["terms"]:
            d.register({"u": lambda: term("u", False), "v": lambda: term("v", True), "2": lambda: TwoBodyTerm(charge_dependent=True), "3": lambda: D4ATMApprox(), "x": lambda: D4ATMExact()}[t]())
        return d

    qk = dict(q=s.q) if any(t in "v2" for t in cfg["terms"]) else {}
    before = snap(ctx, dict(s.tensors(), **own))
    d = make()
    first = copies([d.calculate(s.num, s.pos, s.chg, s.par, **qk)])
    held(ctx, "after the call", before, dict(s.tensors(), **own))
    a = [d.calculate(s.num, s.pos, s.chg, s.par, **qk)]
    same(ctx, "second call", a, first)
    held(ctx, "after two calls", before, dict(s.tensors(), **own))
    same(ctx, "another object", [make().calculate(s.num, s.pos, s.chg, s.par, **qk)], first)
    with torch.no_grad():
        a[0].detach().zero_()
    held(ctx, "after overwriting the result", before, dict(s.tensors(), **own))


def tables(ctx, cfg):
    """What the library hands out is the caller's: parameters."""
    from tad_dftd4 import dftd4
    from tad_dftd4.damping import get_params

    s = Sys(ctx, cfg, "a", cfg["Z"], 0.0)
    kw = dict(method=cfg.get("method", "d4"), functional=cfg.get("functional", "pbe"))
    p = get_params(**kw)
    ref = dict(p)
    e0 = dftd4(s.num, s.pos, s.chg, p, q=s.q)
    for k in list(p):
        if isinstance(p[k], torch.Tensor):
            p[k].mul_(2.0)
        elif not isinstance(p[k], str):
            p[k] = 17.0
    p["a1"] = 0.9
    p.pop("a2")
    p2 = get_params(**kw)
    ctx.check_bool("parameters read again", set(p2) == set(ref))
    ctx.check_eq("energy with parameters read again", dftd4(s.num, s.pos, s.chg, p2, q=s.q), e0, rtol=1e-13)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    S, T = [6, 8, 1], [7, 1, 17]
    BS, BT = [[6, 8, 0], [7, 1, 1]], [[1, 9, 2], [16, 0, 6]]
    for m in ("d4", "d4s"):
        for r in ("dftd4", "disp", "exact", "props", "model"):
            add("inputs", Z=S, route=r, model=m)
        add("inputs", Z=BS, model=m)
        add("inputs", Z=BS, model=m, route="exact")
        add("inputs", Z=S, model=m, req=True)
        for r in ("dftd4", "disp", "exact", "props", "two"):
            k = dict(route=r, model=m)
            if r == "props" and m == "d4s":
                continue
            for x, y in ((S, T), (BS, BT)):
                add("interleave", Z=x, Zb=y, seq="ABAB", **k)
                add("interleave", Z=x, Zb=y, seq="AeBnAsgBrA" if r != "props" else "AeBnAsgBA", **k)
                add("inplace", Z=x, Zb=y, **k)
                add("inplace", Z=x, Zb=y, late=True, **k)
                add("interleave", Z=x, Zb=y, seq="AnB" if r in ("dftd4", "props") else "AB", late=True, **k)
                add("interleave", Z=y, Zb=x, seq="BgA", late=True, **k)
                add("layout", Z=x, **k)
        add("interleave", Z=S, Zb=T, seq="ApBPAB", model=m)
        add("interleave", Z=S, Zb=[8, 6, 1], seq="ABABA", model=m)
        add("interleave", Z=S, Zb=[6, 8], seq="ABABA", model=m, route="disp")
        add("interleave", Z=[6, 1], Zb=[6, 1], seq="ABA", model=m, symx=True)
        add("interleave", Z=S, Zb=S, seq="ABA", model=m)
    for d in ("zero", "mzero", "op"):
        add("inputs", Z=S, route="dftd4", damping=d, params=["s6", "s8", "s9", "a1", "a2", "rs6", "rs8", "alp", "bet"])
        add("interleave", Z=S, Zb=T, seq="ABA", route="two", damping=d, params=["s6", "s8", *C.NEEDS[d]])
    add("interleave", Z=S, Zb=T, seq="ApBPAB", route="props")
    add("interleave", Z=S, Zb=T, seq="ABnAB", route="d3bj")
    add("inplace", Z=S, Zb=T, route="d3bj")
    for r in ("dftd4", "disp", "exact"):
        for ps in ([], ["s8"], ["s6", "s9"]):
            add("inputs", Z=S, route=r, params=["a1", "a2", *ps])
        add("interleave", Z=S, Zb=T, seq="ABA", route=r, params=["a1", "a2"])
    for d in ("rational", "zero", "mzero", "op"):
        add("inputs", Z=S, route="dftd4", params=[*C.NEEDS[d]], damping=d)
    add("interleave", Z=S, Zb=T, seq="ABA", route="d3bj", params=["a1", "a2"])
    for r, ps in (("d3bj", ["s6", "s8", "s9", "a1", "a2", "rs9"]), ("d3bj", ["a1", "a2"]), ("d3zero", ["s6", "s8", "s9", "rs6", "rs8", "rs9", "alp"]), ("d3zero", ["rs6", "rs8", "alp"])):
        add("inputs", Z=S, route=r, params=ps)
        add("inputs", Z=BS, route=r, params=ps)
        add("inputs", Z=S, route=r, params=ps, req=True)
    for m in ("d4", "d4s"):
        for t in ("u", "v", "uu", "uv", "2u", "u2", "23u", "u3v", "2uvu", "xu", "v2x"):
            add("stored", Z=S, terms=t, model=m)
        add("stored", Z=BS, terms="u2v", model=m)
        add("stored", Z=S, terms="u2v", model=m, req=True)
        add("stored", Z=S, terms="v", model=m, req=True)
    for f in ("pbe", "b3lyp", "r2scan"):
        add("tables", Z=S, functional=f)
    return J
