"""C10: invariance under rigid motion."""

import torch

from . import common as C

EXPLANATION = """
dftd4 / DispD4 / DispD4Exact / get_properties run on a symbolic geometry and on
the same geometry after a translation by a symbolic vector, a rotation by a
symbolic angle about each coordinate axis (these generate all rotations), or a
reflection / inversion; z3 shows that every result is unchanged, for each
system of a batch moved independently.
"""
ASSUMPTIONS = [
    "distances >= 0.5 bohr, coordinates within +-6 bohr, translations within +-20 bohr",
    "EEQ charges (tad-multicharge) are themselves invariant: stubbed by arbitrary charges with that symmetry",
]


def move(ctx, how, pts, b, far=False):
    if how == "translate":
        t = [ctx.real(f"t{b}{x}", *((-2000, 2000) if far else (-20, 20))) for x in "xyz"]
        return [[p[k] + t[k] for k in range(3)] for p in pts]
    if how == "shift":
        t = [ctx.lit(x) for x in (131.0, -257.5, 64.25)]
        return [[p[k] + t[k] for k in range(3)] for p in pts]
    if how == "invert":
        return [[ctx.lit(0) - x for x in p] for p in pts]
    if how == "mirror":
        return [[p[0], ctx.lit(0) - p[1], p[2]] for p in pts]
    if how == "swap":
        return [[p[1], p[2], p[0]] for p in pts]
    ax = "xyz".index(how[-1])
    c, s = ctx.angle(f"rot{b}")
    u, v = (ax + 1) % 3, (ax + 2) % 3
    out = []
    for p in pts:
        q = list(p)
        q[u] = c * p[u] - s * p[v]
        q[v] = s * p[u] + c * p[v]
        out.append(q)
    return out


def run(ctx, cfg):
    S = C.system(ctx, cfg)
    a = C.evaluate(ctx, cfg, S)
    M = dict(S)
    hows = cfg["how"] if isinstance(cfg["how"], list) else [cfg["how"]] * len(cfg["Z"])
    M["pos"] = [move(ctx, h, p, b, cfg.get("far")) for b, (h, p) in enumerate(zip(hows, S["pos"]))]
    b = C.evaluate(ctx, cfg, M)
    ctx.check_bool("results", len(a) == len(b))
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.check_eq(f"result {k}", ctx.entries(y), ctx.entries(x))


def jobs(tier):
    J = []

    def add(**k):
        J.append(dict(fn="run", cfg=k))

    for m in ("d4", "d4s"):
        for h in ("translate", "invert", "mirror", "swap", "rotx", "roty", "rotz"):
            add(Z=[[6, 8]], how=h, model=m, lead=[])
            add(Z=[[8, 1, 1]], how=h, model=m, lead=[], q="eeq", grid=h in ("translate",) or h.startswith("rot"))
    add(Z=[[8, 1, 1]], how="translate", lead=[])
    for h in ("translate", "rotz", "mirror"):
        add(Z=[[6, 8, 0], [9, 1, 1]], how=h, grid=True)
        add(Z=[[6, 8, 1]], how=h, route="props", lead=[], grid=True)
        add(Z=[[6, 8]], how=h, route="props", lead=[])
        add(Z=[[6, 8, 1]], how=h, route="exact", lead=[], grid=True)
        add(Z=[[6, 8, 1]], how=h, route="disp", cutoff=True, lead=[], grid=True)
        for d in ("zero", "mzero", "op"):
            add(Z=[[6, 8]], how=h, damping=d, lead=[])
    add(Z=[[6, 8, 0], [9, 1, 1]], how=["translate", "rotx"], grid=True)
    add(Z=[[6, 8, 0], [9, 1, 1]], how=["rotz", "translate"], q="eeq", charge=True, grid=True, model="d4s")
    add(Z=[[6, 8, 26, 1, 92]], how="translate", grid=True, lead=[], q="num")
    add(Z=[[6, 8, 26, 1, 92]], how="roty", grid=True, lead=[], q="num", model="d4s")
    big = dict(grid=True, plain=True, q="num", lead=[], fixed=dict(a1=0.4, a2=4.8))
    for m in ("d4", "d4s"):
        for h in ("translate", "rotx", "invert"):
            add(Z=[[6, 8]], how=h, model=m, lead=[], far=True)
            add(Z=[[6, 8, 1]], how=h, model=m, lead=[], far=True, grid=True)
        for h in ("shift", "swap", "mirror", "invert"):
            add(Z=[[(7 * i) % 100 + 1 for i in range(20)]], how=h, model=m, **big)
            add(Z=[[(7 * i) % 100 + 1 for i in range(17)]], how=h, model=m, route="exact", **big)
    for k in C.run_options(tier, how=["translate", "rotx", "roty", "rotz", "invert", "mirror"]):
        add(**k)
    if tier == "thorough":
        for h in ("rotx", "roty", "rotz"):
            add(Z=[[8, 1, 1]], how=h, lead=[], coords=[[[None, None, None], [None, None, 0.0], [0.0, 0.0, 0.0]]])
            add(Z=[[8, 1, 1]], how=h, lead=[], model="d4s", coords=[[[None, None, None], [None, None, 0.0], [0.0, 0.0, 0.0]]])
        for h in ("translate", "rotx", "rotz", "mirror"):
            for m in ("d4", "d4s"):
                add(Z=[[6, 8, 26, 1, 92, 7, 16]], how=h, grid=True, lead=[], q="num", model=m)
                add(Z=[[6, 8, 26, 1]], how=h, grid=True, lead=[], q="num", model=m, cutoff=True, route="exact")
    return J
