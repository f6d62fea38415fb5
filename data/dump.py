"""
Writes tables.npz: the published reference data (reference polarizabilities,
coordination numbers, charges, hardnesses, r4/r2, D4S widths) as shipped with
the pinned commit.  Run once; the checks only read the file.
"""
import sys

import numpy as np
import torch

sys.path.insert(0, "/repo/src")
from tad_dftd4 import data
from tad_dftd4.data.wfpair import WFPAIR
from tad_dftd4.reference import d4 as r
from tad_dftd4.reference.d4.charge_eeq import clsh, clsq
from tad_dftd4.reference.d4.charge_gfn2 import refh, refq

f = torch.float64
np.savez_compressed(
    sys.argv[1],
    refc=r.refc.numpy(), cn=r.refcovcn.double().numpy(), sys=r.refsys.numpy(), ascale=r.refascale.double().numpy(),
    alpha=r.refalpha.double().numpy(), scount=r.refscount.double().numpy(), secscale=r.secscale.double().reshape(-1).numpy(),
    secalpha=r.secalpha.double().numpy(), q_eeq=clsq.double().numpy(), sq_eeq=clsh.double().numpy(),
    q_gfn2=refq.double().numpy(), sq_gfn2=refh.double().numpy(), zeff=data.ZEFF(torch.device("cpu")).numpy(),
    gam=data.GAM(dtype=f).numpy(), r4r2=data.R4R2(dtype=f).numpy(), wf=WFPAIR(dtype=f).numpy(),
)
