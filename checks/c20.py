"""C20: get_properties returns the ingredients of the energy."""

import torch

from . import common as C

EXPLANATION = """
get_properties runs on symbolic geometry and total charge; z3 compares the four
results with the coordination number of tad-mctc, the charges of the EEQ solver
(total charge and cutoff as given, zero charge by default), C6 from the pinned
reference data and the static polarizabilities, for single systems and padded
batches; the pieces are the ones the energy is built from.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr"]


def props(ctx, cfg):
    from tad_dftd4 import get_properties
    from tad_dftd4.cutoff import Cutoff
    from tad_mctc.ncoord import cn_d4

    Z = cfg["Z"]
    sysm = Z if isinstance(Z[0], list) else [Z]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb] if isinstance(Z[0], list) else [])
    S = C.system(ctx, dict(cfg, Z=sysm, route="props"))
    num = torch.tensor(sysm).reshape(*lead, n)
    pos = ctx.tensor(S["pos"], plain=cfg.get("plain", False)).reshape(*lead, n, 3)
    kw = {}
    form = cfg.get("form", "tensor")
    shp = lead if (not lead or (len(lead) == 1 and nb > 1)) and not cfg.get("col") else [*lead, 1]
    if form == "none":
        chg = ctx.tensor([0.0] * nb).reshape(shp)
    elif form == "tensor":
        chg = ctx.tensor(S["charge"]).reshape(shp)
        kw["charge"] = chg
    else:
        chg = torch.tensor(float(form), dtype=C.DT)
        kw["charge"] = form
    cut = ctx.lit(25)
    if cfg.get("cutoff"):
        cut = ctx.real("cut", 5, 60)
        kw["cutoff"] = Cutoff(cn_eeq=ctx.tensor(cut), dtype=C.DT)
    cn, q, c6, al = get_properties(num, pos, **kw)
    ctx.check_bool("shapes", [tuple(x.shape) for x in (cn, q, c6, al)] == [(*lead, n), (*lead, n), (*lead, n, n), (*lead, n)])
    ctx.check_bool("dtypes", all(x.dtype == C.DT for x in (cn, q, c6, al)))
    ctx.check_eq("coordination number", cn, cn_d4(num, pos))
    qe = ctx.eeq(num, pos, chg, ctx.tensor(cut))
    ctx.check_eq("charges", q, qe)
    e = ctx.entries(cn_d4(num, pos))
    qv = ctx.entries(qe)
    wc6, wal = [], []
    for b in range(nb):
        z = sysm[b]
        c, w = C.c6_table(ctx, z, e[b * n : b * n + n], qv[b * n : b * n + n])
        for i in range(n):
            wc6 += c[i]
            if not z[i]:
                wal.append(ctx.lit(0))
                continue
            a = C.ref_alpha(z[i])
            wal.append(ctx.sum([w[i][r] * a[r][0] for r in range(7) if a[r][0] != 0]))
    ctx.check_eq("C6", c6.reshape(-1), wc6)
    ctx.check_eq("static polarizabilities", al.reshape(-1), wal)


def jobs(tier):
    J = []

    def add(fn="props", **k):
        J.append(dict(fn=fn, cfg=k))

    one = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]]
    add(Z=[6, 8, 1], grid=True, charge=True)
    add(Z=[6, 8, 1], grid=True, form="none")
    add(Z=[6, 8, 1], grid=True, form=1)
    add(Z=[6, 8, 1], grid=True, form=-1.5, cutoff=True)
    add(Z=[6, 1], charge=True)
    add(Z=[8, 1], form="none", cutoff=True)
    add(Z=[1, 2, 1], coords=one, charge=True)
    add(Z=[[6, 8, 0], [7, 1, 1]], grid=True, charge=True)
    add(Z=[[6, 8, 0], [7, 1, 1]], grid=True, charge=True, cutoff=True)
    add(Z=[[0, 8, 3], [7, 0, 1], [2, 2, 2]], grid=True, charge=True)
    add(Z=[[6, 8], [7, 1], [1, 0], [0, 3]], grid=True, lead=[2, 2], charge=True)
    add(Z=[[6, 8, 0], [7, 1, 1]], grid=True, form="none")
    add(Z=[[6, 8], [7, 1], [1, 0], [0, 3]], grid=True, lead=[2, 2], form="none")
    add(Z=[[6, 8]], grid=True, form="none")
    add(Z=[[6, 8]], grid=True, charge=True)
    add(Z=[6], grid=True, charge=True)
    add(Z=[[6, 8, 0], [7, 1, 1]], grid=True, charge=True, col=True)
    add(Z=[6, 8, 1], grid=True, charge=True, col=True)
    add(Z=[[6, 8, 1]], grid=True, charge=True, col=True, cutoff=True)
    add(Z=[(7 * i) % 100 + 1 for i in range(17)], grid=True, charge=True)
    add(Z=[92, 103, 87, 26], grid=True, charge=True)
    add(Z=[79, 17, 3, 57, 82], grid=True, form="none")
    add(Z=[6, 8, 1], grid=True, form=0.5)
    add(Z=[6, 8, 1], grid=True, form=7)
    add(Z=[6, 8, 1], grid=True, charge=True, far=True, cutoff=True)
    add(Z=[6, 1], charge=True, far=True)
    add(Z=[[6, 8, 1], [7, 0, 9], [3, 26, 92]], grid=True, charge=True, far=True)
    add(Z=[[6, 8], [7, 1], [1, 0], [0, 3]], grid=True, lead=[2, 1, 2], charge=True)
    add(Z=[(7 * i) % 100 + 1 for i in range(7)], grid=True, charge=True)
    opt = dict(shape=C.SHAPES, charge=[True], form=["tensor", "none"], cutoff=[C.NO, True], far=[C.NO, True], col=[C.NO, True])
    for k in C.options(opt, t=3):
        lead, zs = k.pop("shape")
        add(Z=zs, lead=lead, grid=True, **k)
    if tier == "thorough":
        for a in range(1, 103, 4):
            add(Z=[a, min(a + 1, 103), (a * 37) % 103 + 1], grid=True, charge=True)
        add(Z=[6, 8, 1], coords=one, charge=True)
        add(Z=[6, 8, 1, 9, 7, 16], grid=True, charge=True)
    return J
