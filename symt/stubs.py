"""
Environment stub: the EEQ charge solver (package tad-multicharge, not part of
the code under test).

On symbolic positions `get_eeq_charges` returns arbitrary charges.  The only
facts kept about them are the documented ones: the charge of an atom is a
function of the set {(Z_j, r_j)} seen from that atom (permutation equivariance,
invariance under rigid motion, independence of padding and of the other
systems of a batch), of the total charge of its own system and of the cutoff;
padding atoms carry no charge.  On ordinary tensors the real solver runs.
"""

from __future__ import annotations

import numpy as np
import torch

from . import elem as X
from . import poly as P
from . import symtensor as S
from .elem import E

BOUND = 0.9
_orig = None


def _key_poly(p):
    return p.key()


def charges(numbers, positions, chrg, cutoff=None):
    num = np.array(numbers.tolist())
    pos = S.A(positions)
    shp = num.shape
    nat = shp[-1] if shp else 0
    rows = num.reshape(-1, nat)
    xyz = pos.reshape(-1, nat, 3)
    nb = rows.shape[0]
    # shape rules of the real solver
    ct = torch.atleast_1d(torch.as_tensor(chrg))
    if positions.dtype != ct.dtype and ct.dtype.is_floating_point and torch.promote_types(positions.dtype, ct.dtype) != positions.dtype:
        odt = ct.dtype
    else:
        odt = positions.dtype
    if ct.ndim == 1 and len(ct) != 1:
        ct = ct.view(-1, 1)
    if ct.ndim != numbers.ndim:
        raise ValueError(
            f"Total charge must have the same number of dimensions as the atomic numbers tensor. Got {numbers.shape} and {ct.shape}"
        )
    ch = np.broadcast_to(S.A(ct), (*shp[:-1], 1)).reshape(-1)
    cut = S.A(torch.as_tensor(cutoff)).reshape(-1)[0].p if cutoff is not None else None
    out = []
    for b in range(nb):
        real = [i for i in range(nat) if rows[b][i] != 0]
        d = {}
        for i in real:
            for j in real:
                if i < j:
                    q = P.ZERO
                    for k in range(3):
                        t = xyz[b, i, k].p - xyz[b, j, k].p
                        q = q + t * t
                    d[i, j] = d[j, i] = q
        glob = frozenset(
            _count((int(rows[b][i]), frozenset(_count((int(rows[b][j]), _key_poly(d[i, j])) for j in real if j != i).items())) for i in real).items()
        )
        for i in range(nat):
            if i not in real:
                out.append(X.E0)
                continue
            loc = frozenset(_count((int(rows[b][j]), _key_poly(d[i, j])) for j in real if j != i).items())
            key = ("eeq", int(rows[b][i]), loc, glob, _key_poly(ch[b].p), None if cut is None else _key_poly(cut))
            tab = P.W.__dict__.setdefault("eeq", {})
            if key not in tab:
                tab[key] = P.W.atom("var", f"eeq{len(tab)}", (P.num(-BOUND), P.num(BOUND)), None, f"eeq{len(tab)}")
            out.append(E(P.var_poly(tab[key])))
    q = S.SymTensor(S.objarr(shp, out), odt)
    lin = P.W.__dict__.get("eeq_linear")
    if lin is not None:
        # differentiable in the positions and the total charge
        w, k = lin
        mask = (numbers != 0).type(positions.dtype)
        q = q + (positions * w).sum(-1) * mask + k * ct * mask
    return q


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def install():
    global _orig
    import tad_multicharge
    import tad_multicharge.model.eeq as eeq

    if _orig is not None:
        return
    _orig = eeq.get_charges

    def get_charges(numbers, positions, chrg, cutoff=None):
        if isinstance(positions, S.SymTensor) or S.has_sym((positions, chrg), {}):
            return charges(numbers, positions, chrg, cutoff)
        return _orig(numbers, positions, chrg, cutoff)

    eeq.get_charges = get_charges
    tad_multicharge.get_eeq_charges = get_charges


install()
