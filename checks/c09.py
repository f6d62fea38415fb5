"""C09: batching and padding do not change the results."""

import torch

from . import common as C

EXPLANATION = """
A padded batch (padding at the end, the front or the middle, padding
coordinates zero, arbitrary symbols or coincident with a real atom; 1-D and
2-D batches; batches of one; fully padded rows) and each of its systems alone,
without padding, run on the same symbolic geometry, charges, total charges and
parameters; z3 shows that every atom has the same value in both and that
padding entries are exactly zero.
"""
ASSUMPTIONS = [
    "distances between real atoms >= 0.5 bohr; padding coordinates arbitrary in [-9, 9]",
    "EEQ charges (tad-multicharge) do not depend on batching: stubbed by arbitrary charges with that property",
]


def run(ctx, cfg):
    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb])
    S = C.system(ctx, cfg)
    got = C.evaluate(ctx, cfg, S)
    real = [[i for i in range(n) if sysm[b][i]] for b in range(nb)]
    single = []
    for b in range(nb):
        if not real[b]:
            single.append(None)
            continue
        one = dict(S)
        for k in ("Z", "pos", "q", "r4r2", "cn"):
            if S.get(k) is not None:
                one[k] = [[S[k][b][i] for i in real[b]]]
        if S["rvdw"] is not None:
            one["rvdw"] = [[[S["rvdw"][b][i][j] for j in real[b]] for i in real[b]]]
        if S["charge"] is not None:
            one["charge"] = [S["charge"][b]]
        single.append(C.evaluate(ctx, dict(cfg, lead=cfg.get("alone", [])), one))
    for k, t in enumerate(got):
        pair = t.dim() > len(lead) + 1
        ctx.check_bool("shape", tuple(t.shape) == (*lead, n, *([n] if pair else [])))
        G = ctx.entries(t)
        want = []
        for b in range(nb):
            m = len(real[b])
            X = ctx.entries(single[b][k]) if m else []
            pos = {i: a for a, i in enumerate(real[b])}
            for i in range(n):
                for j in range(n) if pair else [i]:
                    if i in pos and j in pos:
                        want.append(X[pos[i] * m + pos[j]] if pair else X[pos[i]])
                    else:
                        want.append(ctx.lit(0))
        ctx.check_eq(f"result {k}", G, want)


def jobs(tier):
    J = []

    def add(**k):
        J.append(dict(fn="run", cfg=k))

    for m in ("d4", "d4s"):
        for pad in ("zero", "sym", "same"):
            add(Z=[[6, 1, 0], [8, 1, 1]], pad=pad, model=m)
            add(Z=[[6, 0, 1], [0, 9, 0], [14, 17, 0]], pad=pad, model=m, q="eeq", charge=True)
        add(Z=[[0, 6, 1], [0, 0, 9]], pad="sym", model=m, route="exact", grid=True)
        add(Z=[[6, 1], [9, 0], [7, 1], [14, 8]], lead=[2, 2], model=m, charge=True)
        add(Z=[[8, 1]], lead=[1], model=m, charge=True)
        add(Z=[[8, 1]], lead=[], alone=[1], model=m, charge=True, q="eeq")
        add(Z=[[8, 1, 1]], lead=[1], model=m, q="eeq")
        add(Z=[[7, 1, 0], [0, 0, 0]], model=m)
        add(Z=[[6, 1, 0], [8, 1, 1]], model=m, q="eeq", charge=True, col=True, grid=True)
        add(Z=[[92, 0, 0, 0], [6, 8, 26, 1], [0, 7, 0, 8], [103, 1, 1, 0]], model=m, grid=True, cutoff=True, pad="sym")
    for d in ("zero", "mzero", "op"):
        add(Z=[[6, 0, 8], [0, 1, 9]], damping=d, pad="sym")
        add(Z=[[6, 0, 8], [0, 1, 9]], damping=d, pad="same", overrides=True)
    add(Z=[[6, 0, 8], [7, 1, 9]], pad="sym", overrides=True)
    for pad in ("zero", "sym", "same"):
        add(Z=[[6, 1, 0], [8, 1, 1]], pad=pad, route="props", charge=True)
        add(Z=[[6, 1, 0], [8, 1, 1]], pad=pad, route="exact", grid=True)
        add(Z=[[6, 1, 0], [8, 1, 1]], pad=pad, route="disp", cutoff=True)
    add(Z=[[0, 6, 1, 0], [0, 0, 7, 0], [3, 4, 5, 6]], pad="sym", route="props", grid=True)
    add(Z=[[6, 1], [9, 0], [7, 1], [14, 8]], lead=[2, 2], route="props")
    add(Z=[[9, 1]], lead=[1], route="props", charge=True)
    add(Z=[[9]], lead=[1], route="props", charge=True)
    add(Z=[[9, 0], [1, 1]], route="props", charge=True)
    add(Z=[[9, 0], [1, 1]], route="props", charge=True, col=True)
    wide = [[(13 * i + 7 * b) % 100 + 1 if i < [9, 4, 7][b] else 0 for i in range(9)] for b in range(3)]
    add(Z=wide, grid=True, route="disp2", q="num", pad="sym")
    add(Z=wide, grid=True, route="disp2", q="num", pad="sym", model="d4s")
    big = dict(grid=True, plain=True, q="num", fixed=dict(a1=0.4, a2=4.8))
    rows = lambda ns, n: [[(13 * i + 7 * b) % 100 + 1 if i < m else 0 for i in range(n)] for b, m in enumerate(ns)]  # noqa: E731
    front = lambda ns, n: [[(13 * i + 7 * b) % 100 + 1 if i >= n - m else 0 for i in range(n)] for b, m in enumerate(ns)]  # noqa: E731
    for m in ("d4", "d4s"):
        add(Z=rows([34, 7, 25], 36), model=m, **big)
        add(Z=front([30, 4], 33), model=m, route="exact", **big)
        add(Z=rows([1 + (5 * b) % 6 for b in range(40)], 6), model=m, **big)
        add(Z=rows([1 + (5 * b) % 6 for b in range(36)], 6), model=m, lead=[3, 12], **big)
        add(Z=rows([70, 20, 65], 72), model=m, route="disp2", **big)
        add(Z=rows([1 + (5 * b) % 4 for b in range(130)], 4), model=m, route="disp2", **big)
        add(Z=[[0, 6, 1], [8, 0, 26]], route="model", model=m)
        add(Z=[[6, 1, 0, 0], [8, 26, 92, 7]], route="model", model=m)
        add(Z=[[0, 0, 3], [0, 79, 0], [0, 0, 0]], route="model", model=m)
        add(Z=[[0, 6], [8, 1], [3, 0], [14, 17]], route="model", model=m, lead=[2, 2])
        add(Z=[[1, 6], [8, 1]], route="model", model=m, flush=True, q="num", cns=[[(30, 45), 2.9], [1.7, 0.8]])
        add(Z=[[0, 8, 79], [1, 6, 0], [2, 0, 3]], route="model", model=m, flush=True, q="num", cns=[[0.0, 2.0, 1.1], [(30, 45), (30, 45), 0.0], [1.0, 0.0, 3.0]])
        add(Z=[[6, 1, 0], [8, 1, 1]], pad="sym", model=m, far=True)
        add(Z=[[6, 1], [8, 0]], pad="sym", model=m, far=True, q="eeq", charge=True)
        add(Z=[[6, 1, 0], [8, 1, 1]], pad="sym", model=m, far=True, cutoff=True, overrides=True)
        add(Z=[[6, 1], [8, 7]], model=m, q="eeq", charge=True)
        add(Z=[[6, 1], [8, 0], [3, 9], [0, 4]], lead=[2, 1, 2], model=m)
        add(Z=[[6, 1], [8, 0], [3, 9], [0, 4]], lead=[1, 4], model=m, charge=True, q="eeq")
        add(Z=[[6, 1, 8]], lead=[1, 1], model=m, grid=True)
        add(Z=rows([7, 3, 7, 5, 1, 6, 2], 7), model=m, **big)
        add(Z=rows([1 + (5 * b) % 5 for b in range(23)], 5), model=m, route="exact", **big)
        add(Z=rows([23, 11], 23), model=m, route="exact", **big)
    for d in ("zero", "mzero", "op"):
        add(Z=[[6, 0, 8], [0, 1, 9]], damping=d, pad="sym", far=True)
    add(Z=[[6, 1], [8, 0], [3, 9], [0, 4]], lead=[2, 1, 2], route="props")
    add(Z=[[6, 1], [8, 0], [3, 9], [0, 4]], lead=[1, 4], route="props", charge=True)
    add(Z=[[6, 1, 0], [8, 1, 1]], pad="sym", route="props", charge=True, far=True, grid=True)
    for k in C.run_options(tier, shapes=C.SHAPES[1:], pad=["zero", "sym", "same"]):
        add(**k)
    for m in ("d4", "d4s"):
        for r in ("dftd4", "exact", "disp2"):
            add(Z=[[6, 1, 0], [8, 1, 1], [0, 7, 0]], pad="sym", model=m, route=r, padq=True, grid=True)
        for k, (lead, zs) in enumerate(C.patterns()):
            add(Z=zs, lead=lead, model=m, route=("dftd4", "exact")[k % 2], **big)
        # the same molecule more than once, slightly displaced or identical
        tw = [[[x * (1 + 0.01 * b) for x in row] for row in C.grid(3)] for b in (0, 1, 2, 0)]
        add(Z=[[6, 8, 1]] * 4, coords=tw, model=m, q="num", plain=True, fixed=dict(a1=0.4, a2=4.8))
        add(Z=[[6, 8, 1]] * 4, coords=tw, model=m, q="eeq", plain=True, fixed=dict(a1=0.4, a2=4.8))
    for lead, zs in C.patterns():
        add(Z=zs, lead=lead, grid=True, route="props", plain=True)
    if tier == "thorough":
        for m in ("d4", "d4s"):
            wide = [[(17 * i + 5 * b) % 86 + 1 if (i + b) % 3 or b == 1 else 0 for i in range(12)] for b in range(4)]
            add(Z=wide, grid=True, route="disp2", q="num", pad="sym", model=m)
            add(Z=[r[:6] for r in wide], grid=True, q="num", pad="sym", model=m, lead=[2, 2])
            add(Z=[[6, 7, 0], [8, 16, 9]], pad="sym", model=m)
            add(Z=[[6, 7, 0], [8, 16, 9]], pad="same", model=m, route="exact")
    return J
