"""C08: permutation equivariance of atoms and of the systems of a batch."""

import torch

from . import common as C

EXPLANATION = """
dftd4 / DispD4 / DispD4Exact / get_properties and the model methods run twice on the same symbolic
geometry, charges and parameters: once in the given atom order and once with
atoms permuted (inside each system of the batch) and the systems of the batch
permuted; z3 shows that each atom keeps its value, for every geometry and every
parameter value.  Transpositions and a cycle generate all orders.
"""
ASSUMPTIONS = [
    "distances >= 0.5 bohr",
    "EEQ charges (tad-multicharge) are themselves equivariant: stubbed by arbitrary charges with that symmetry",
]


def order(cfg, nb, n):
    perm = cfg["perm"]
    if isinstance(perm[0], int):
        perm = [perm] * nb
    return perm, cfg.get("bperm", list(range(nb)))


def run(ctx, cfg):
    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb])
    perm, bperm = order(cfg, nb, n)
    S = C.system(ctx, cfg)
    a = C.evaluate(ctx, cfg, S)
    Pm = dict(S)
    for k in ("Z", "pos", "q", "r4r2", "cn"):
        if S.get(k) is not None:
            Pm[k] = [[S[k][b][i] for i in perm[b]] for b in bperm]
    if S.get("rvdw") is not None:
        Pm["rvdw"] = [[[S["rvdw"][b][i][j] for j in perm[b]] for i in perm[b]] for b in bperm]
    if S.get("charge") is not None:
        Pm["charge"] = [S["charge"][b] for b in bperm]
    c = C.evaluate(ctx, cfg, Pm)
    ctx.check_bool("results", len(a) == len(c) and [x.shape for x in a] == [x.shape for x in c])
    for k, (x, y) in enumerate(zip(a, c)):
        pairdim = x.dim() > len(lead) + 1
        x = x.reshape(nb, n, *([n] if pairdim else []))
        y = y.reshape(x.shape)
        X, Y = ctx.entries(x), ctx.entries(y)
        want = []
        for b in range(nb):
            for i in range(n):
                bi = bperm[b] * n + perm[bperm[b]][i]
                if pairdim:
                    want += [X[bi * n + perm[bperm[b]][j]] for j in range(n)]
                else:
                    want.append(X[bi])
        ctx.check_eq(f"result {k}", Y, want)


def jobs(tier):
    J = []

    def add(**k):
        J.append(dict(fn="run", cfg=k))

    sw = [1, 0]
    cyc = [1, 2, 0]
    for m in ("d4", "d4s"):
        add(Z=[[6, 1]], perm=sw, model=m, lead=[])
        add(Z=[[8, 1, 1]], perm=cyc, model=m, lead=[])
        add(Z=[[8, 1, 1]], perm=[0, 2, 1], model=m, lead=[])
        add(Z=[[6, 1, 0], [8, 1, 1]], perm=cyc, bperm=sw, model=m)
        add(Z=[[6, 1], [0, 9], [14, 17]], perm=[[1, 0], [0, 1], [1, 0]], bperm=[2, 0, 1], model=m, q="eeq")
        add(Z=[[6, 1, 26, 7]], perm=[3, 0, 2, 1], model=m, lead=[], grid=True)
        add(Z=[[6, 1, 26, 7, 92, 0, 8, 6, 6, 1]], perm=[3, 5, 8, 0, 2, 1, 9, 4, 7, 6], model=m, lead=[], grid=True, q="num", route="disp2")
    add(Z=[[8, 1, 1]], perm=cyc, q="eeq", lead=[])
    add(Z=[[8, 1, 1], [16, 1, 0]], perm=cyc, q="eeq", bperm=sw, charge=True)
    for d in ("zero", "mzero", "op"):
        add(Z=[[6, 1, 8]], perm=[2, 1, 0], damping=d, lead=[], route="disp2")
    add(Z=[[6, 1, 8]], perm=[2, 1, 0], lead=[], overrides=True)
    add(Z=[[6, 1, 8]], perm=[2, 1, 0], lead=[], overrides=True, damping="zero")
    add(Z=[[6, 1, 8]], perm=[2, 0, 1], lead=[], route="exact")
    add(Z=[[6, 1], [9, 0]], perm=sw, lead=[2], route="exact", bperm=sw)
    add(Z=[[6, 1, 8]], perm=[2, 0, 1], lead=[], route="disp", cutoff=True)
    add(Z=[[6, 1, 8, 1]], perm=[2, 0, 3, 1], lead=[], route="disp", cutoff=True, grid=True)
    add(Z=[[6, 1, 8]], perm=[2, 0, 1], lead=[], route="props")
    add(Z=[[6, 1, 0], [8, 1, 1]], perm=cyc, bperm=sw, route="props", charge=True)
    add(Z=[[6, 1], [9, 0], [7, 1], [14, 8]], perm=sw, bperm=[1, 0, 3, 2], route="props", lead=[2, 2])
    add(Z=[[6, 1], [9, 0], [7, 1], [14, 8]], perm=sw, bperm=[1, 3, 0, 2], lead=[2, 2], model="d4s")
    add(Z=[[6, 1], [9, 0], [7, 1], [14, 8]], perm=sw, bperm=[1, 3, 0, 2], lead=[2, 2])
    big = dict(grid=True, plain=True, q="num", lead=[], fixed=dict(a1=0.4, a2=4.8))
    el = lambda n: [[(7 * i) % 100 + 1 for i in range(n)]]  # noqa: E731
    pm = lambda n: [(11 * i + 3) % n for i in range(n)]  # noqa: E731
    for m in ("d4", "d4s"):
        for r, n in (("dftd4", 17), ("dftd4", 36), ("disp", 27), ("exact", 34), ("disp2", 70), ("disp2", 130)):
            add(Z=el(n), perm=pm(n), model=m, route=r, **big)
        add(Z=[[6, 1, 8]], perm=[2, 0, 1], lead=[], route="model", model=m)
        add(Z=[[6, 0, 26, 1], [0, 7, 92, 9]], perm=[3, 2, 0, 1], bperm=sw, route="model", model=m)
        add(Z=[[6, 26], [9, 0], [7, 1], [14, 8]], perm=sw, bperm=[1, 3, 0, 2], lead=[2, 2], route="model", model=m)
        add(Z=[[1, 6], [8, 1]], perm=sw, bperm=sw, route="model", model=m, flush=True, q="num", cns=[[(30, 45), 2.9], [1.7, 0.8]])
        add(Z=[[6, 1, 8]], perm=[2, 0, 1], lead=[], model=m, far=True, grid=True)
        add(Z=[[6, 1]], perm=sw, lead=[], model=m, far=True, charge=True, q="eeq")
        add(Z=[[6, 1, 8]], perm=[2, 0, 1], lead=[], model=m, far=True, route="disp2", cutoff=True)
        add(Z=[[6, 1, 8]], perm=[2, 0, 1], lead=[], model=m, far=True, cutoff=True, overrides=True, grid=True)
        add(Z=[[6, 1, 8], [7, 9, 1], [3, 26, 17]], perm=cyc, bperm=[1, 2, 0], model=m, grid=True)
        add(Z=[[6, 1], [9, 7]], perm=sw, bperm=sw, model=m, q="eeq", charge=True)
        add(Z=el(7), perm=pm(7), model=m, **big)
        add(Z=[[(7 * i + 5 * b) % 100 + 1 for i in range(7)] for b in range(7)], perm=pm(7), bperm=[(3 * i + 1) % 7 for i in range(7)], model=m, **dict(big, lead=[7]))
        add(Z=el(23), perm=pm(23), model=m, route="exact", **big)
    for d in ("zero", "mzero", "op"):
        add(Z=[[6, 1, 8]], perm=[2, 1, 0], damping=d, lead=[], route="disp2", far=True)
    for k in C.run_options(tier):
        nb, n = len(k["Z"]), len(k["Z"][0])
        add(perm=[(i + 1) % n for i in range(n)], bperm=[(i + 1) % nb for i in range(nb)], **k)
    tw = [[[x * (1 + 0.01 * b) for x in row] for row in C.grid(3)] for b in (0, 1, 2, 0)]
    for m in ("d4", "d4s"):
        for q in ("num", "eeq"):
            # the same molecule more than once, slightly displaced or identical
            add(Z=[[6, 8, 1]] * 4, coords=tw, perm=cyc, bperm=[1, 2, 3, 0], model=m, q=q, plain=True, fixed=dict(a1=0.4, a2=4.8))
    add(Z=[[6, 8, 1]] * 4, coords=tw, perm=cyc, bperm=[1, 2, 3, 0], route="props")
    # isomers: members with the same sum formula, reordered independently
    for r in ("dftd4", "disp", "exact", "props", "model", "disp2"):
        for m in ("d4", "d4s") if r not in ("props", "disp2") else ("d4",):
            kq = {} if r in ("props", "model") else dict(q="num")
            add(Z=[[6, 8, 1]] * 3, perm=[[0, 1, 2], [1, 2, 0], [2, 1, 0]], route=r, model=m, grid=True, **kq)
            add(Z=[[6, 8, 0, 1]] * 2, perm=[[0, 1, 2, 3], [3, 0, 1, 2]], route=r, model=m, grid=True, **kq)
    add(Z=[[6, 8]] * 4, perm=[sw, [0, 1], sw, sw], lead=[2, 2], q="eeq", charge=True, grid=True)
    if tier == "thorough":
        for m in ("d4", "d4s"):
            add(Z=[[8, 6, 7]], perm=cyc, model=m, lead=[])
            add(Z=[[8, 6, 7]], perm=[1, 0, 2], model=m, lead=[])
            add(Z=[[26, 6, 17]], perm=[2, 1, 0], model=m, lead=[], route="exact")
            n = 12
            add(Z=[[(7 * i) % 100 + 1 for i in range(n)]], perm=[(5 * i + 3) % n for i in range(n)], model=m, lead=[], grid=True, q="num", route="disp2")
            add(Z=[[(11 * i) % 86 + 1 for i in range(6)]], perm=[4, 2, 0, 5, 1, 3], model=m, lead=[], grid=True, q="num")
        add(Z=[[6, 1, 8, 7]], perm=[2, 0, 3, 1], lead=[], route="props", grid=True)
    return J
