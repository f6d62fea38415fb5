From 5325a2a4361352f3fa3b68a81d37bff85ff15b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:38 +0000
Subject: [PATCH 01/19] fix: apply the three-body cutoff to all three distances
 of a triple

---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..715c23c 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -154,7 +154,7 @@ def get_atm_dispersion(
         mask_triples
         * (r2ij <= cutoff2)
         * (r2jk <= cutoff2)
-        * (r2jk <= cutoff2),
+        * (r2ik <= cutoff2),
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
     )
-- 
2.43.0


From c4aff005e678b585a770d34bcb2113d6e1595680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:38 +0000
Subject: [PATCH 02/19] fix: evaluate zero damping with R0/R instead of R/R0

---
 src/tad_dftd4/damping/functions.py    | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index f4eefec..7034e6c 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -367,7 +367,7 @@ class ZeroDamping(Damping):
             rs = rs9
 
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
-        t_n = rs * storch.divide(distances, radii)
+        t_n = rs * storch.divide(radii, distances)
 
         f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
 
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 715c23c..c49fbef 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -133,10 +133,10 @@ def get_atm_dispersion(
     fdamp = torch.where(
         mask_triples,
         damping_function(
-            r0,
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
+            r0,
             order=9,
             alp=alp / 3.0,
             only_damping=True,
-- 
2.43.0


From dae81aeb99c0b28f9f1f5b33c7541439548a700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:38 +0000
Subject: [PATCH 03/19] fix: use the critical radius in the optimised-power
 damping denominator

---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 7034e6c..1b20a4f 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -481,7 +481,7 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * distances**order)
+        return rb / (rb * distances**order + ab * radius**order)
 
 
 class ZDamping(Damping):
-- 
2.43.0


From a7058d5a4832cdf2b897055e656c2c8ac04f1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:38 +0000
Subject: [PATCH 04/19] fix: look up functionals case-insensitively and default
 the variant for functional=None

---
 src/tad_dftd4/damping/parameters/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..f78ad17 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -92,7 +92,7 @@ def get_params(
         default_section = table["default"]
 
         variant_section = default_section[method.value]
-        if variant not in variant_section:
+        if variant is not None and variant not in variant_section:
             raise KeyError(
                 f"Variant '{variant}' not found in default parameters for "
                 f"method={method.value!r}."
@@ -101,7 +101,7 @@ def get_params(
         disp_method_section = default_section["parameter"]
     else:
         func_section = table["parameter"]
-        if functional not in func_section:
+        if functional.casefold() not in func_section:
             raise KeyError(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
-- 
2.43.0


From 6ac9bb802a7422999d54709d4c1875fe9e295bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:38 +0000
Subject: [PATCH 05/19] fix: avoid underflow in the CN derivative of the
 reference weights

---
 src/tad_dftd4/model/d4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 8463e20..78cadd5 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -249,7 +249,9 @@ class D4Model(BaseModel):
             # no mask needed here, already masked in `dexpw`
             dnorm = torch.sum(dexpw, dim=-1, keepdim=True)
 
-            _dgw = (dexpw - expw * dnorm / norm) / norm
+            # divide each factor by the (possibly tiny) norm separately, as
+            # the product `expw * dnorm` may underflow
+            _dgw = dexpw / norm - (expw / norm) * (dnorm / norm)
             dgw = torch.where(
                 is_exceptional(_dgw, self.dtype), zero, _dgw.type(self.dtype)
             )
-- 
2.43.0


From 5836724e50dca7c8167a37793b7ab9589d96ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:14 +0000
Subject: [PATCH 06/19] fix: keep total charge and default ATM radii in the
 precision of the inputs

---
 src/tad_dftd4/disp.py                 | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..aa5daa9 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -136,7 +136,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        any_to_tensor(charge, **dd),
         param,
         cutoff=cutoff,
         q=q,
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index c49fbef..463fdae 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -247,7 +247,7 @@ class RadiiBJMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
+        dd: DD = {"device": r4r2.device, "dtype": r4r2.dtype}
 
         a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
         a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
-- 
2.43.0


From e4606bc84ed78df3333b4c2d2f49e7799d8ba026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:41 +0000
Subject: [PATCH 07/19] fix: atom-resolved polarizabilities of the D4S model

---
 src/tad_dftd4/model/d4s.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..02ff54c 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -311,9 +311,28 @@ class D4SModel(BaseModel):
 
         a = self._get_alpha()
 
-        # Since we sum over one of the atom dimensions here, we need to
-        # divide by the number of atoms.
-        return einsum("...mnr,...nrw->...mw", gw, a) / nat
+        # The weights of atom `n` depend on its partner `m`: average over all
+        # real partners (padding must not contribute).
+        zero = torch.tensor(0.0, **self.dd)
+        gw = torch.where(mask.unsqueeze(-1).unsqueeze(-1), gw, zero)
+        return einsum("...mnr,...nrw->...nw", gw, a) / nat.unsqueeze(-1)
+
+    def get_polarizabilities(self, weights: Tensor) -> Tensor:
+        """
+        Calculate static polarizabilities for all atoms.
+
+        Parameters
+        ----------
+        weights : Tensor
+            Weights for the atomic reference systems of shape
+            ``(..., nat, nat, nref)``.
+
+        Returns
+        -------
+        Tensor
+            Polarizabilities of shape ``(..., nat)``.
+        """
+        return self.get_weighted_pols(weights)[..., 0]
 
 
 class D4SDebug(D4SModel):
-- 
2.43.0


From d1aa66fe375a91b29a04a0b76ed910c7ef5b3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:41 +0000
Subject: [PATCH 08/19] fix: support batches in D4SDebug

---
 src/tad_dftd4/model/d4s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 02ff54c..ee602a7 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -344,5 +344,5 @@ class D4SDebug(D4SModel):
 
     def _get_wf(self) -> Tensor:
         """Pairwise weighting factor."""
-        s = self.numbers.size(0)
-        return torch.full((s, s), WF_DEFAULT, **self.dd)
+        shp = (*self.numbers.shape, self.numbers.shape[-1])
+        return torch.full(shp, WF_DEFAULT, **self.dd)
-- 
2.43.0


From 8606bf4ea7e8c27af10748b820fe6543bfa36ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:41 +0000
Subject: [PATCH 09/19] fix: finite gradients when all reference weights
 underflow

---
 src/tad_dftd4/model/d4.py  | 7 ++++++-
 src/tad_dftd4/model/d4s.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 78cadd5..b2eb96c 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -203,6 +203,11 @@ class D4Model(BaseModel):
             torch.tensor(1e-300, device=self.device, dtype=torch.double),
         )
 
+        # all Gaussian weights of an atom may underflow: avoid the division by
+        # zero, which would poison the gradient, and use the fallback below
+        vanished = norm == 0.0
+        norm = torch.where(vanished, torch.ones_like(norm), norm)
+
         # back to real dtype
         gw_temp = (expw / norm).type(self.dtype)
 
@@ -211,7 +216,7 @@ class D4Model(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            vanished | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index ee602a7..c2f6cca 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -222,6 +222,11 @@ class D4SModel(BaseModel):
             torch.tensor(1e-300, device=self.device, dtype=torch.double),
         )
 
+        # all Gaussian weights of an atom may underflow: avoid the division by
+        # zero, which would poison the gradient, and use the fallback below
+        vanished = norm == 0.0
+        norm = torch.where(vanished, torch.ones_like(norm), norm)
+
         # back to real dtype
         gw_temp = (expw / norm).type(self.dtype)
 
@@ -230,7 +235,7 @@ class D4SModel(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            vanished | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
-- 
2.43.0


From 4ea82d5713dd7fc3376d77ef28789bbac8c8d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 10/19] fix: finite gradients of the charge scaling for
 over-ionised atoms

exp() overflowed in the discarded branch of torch.where for charges slightly
below -Zeff, so that the gradient became NaN.
---
 src/tad_dftd4/model/base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..e178a2d 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -326,10 +326,14 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # mask before the exponentiation: it overflows for slightly negative
+        # values, which turns the gradient of the discarded branch into NaN
+        pos = qmod > eps
+        qmod_safe = torch.where(pos, qmod - eps, torch.ones_like(qmod))
+        scale = torch.exp(gam * (1.0 - qref / qmod_safe))
 
         return torch.where(
-            qmod > 0.0,
+            pos,
             torch.exp(ga * (1.0 - scale)),
             torch.exp(ga),
         )
@@ -355,11 +359,15 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # mask before the exponentiation: it overflows for slightly negative
+        # values, which turns the gradient of the discarded branch into NaN
+        pos = qmod > eps
+        qmod_safe = torch.where(pos, qmod - eps, torch.ones_like(qmod))
+        scale = torch.exp(gam * (1.0 - qref / qmod_safe))
         zeta = torch.exp(ga * (1.0 - scale))
 
         return torch.where(
-            qmod > 0.0,
+            pos,
             -ga * gam * scale * zeta * storch.divide(qref, qmod**2),
             torch.tensor(0.0, **self.dd),
         )
-- 
2.43.0


From 3bea1c84db3eae3b57bd4a1e0a00b1a58bae396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 11/19] fix: finite parameter gradients for masked pairs in
 dispersion2

---
 src/tad_dftd4/dispersion/twobody.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index b168dd2..7dd7486 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -133,6 +133,7 @@ def dispersion2(
     """
     dd: DD = {"device": positions.device, "dtype": positions.dtype}
     zero = torch.tensor(0.0, **dd)
+    one = torch.tensor(1.0, **dd)
 
     if cutoff is None:
         cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)
@@ -141,7 +142,7 @@ def dispersion2(
     distances = torch.where(
         mask,
         storch.cdist(positions, positions, p=2),
-        torch.tensor(torch.finfo(positions.dtype).eps, **dd),
+        one,
     )
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
@@ -156,6 +157,10 @@ def dispersion2(
     else:
         raise ValueError(f"Unknown radius type: {damping_function.radius_type}")
 
+    # avoid overflow in the masked entries, which turns the gradient with
+    # respect to the damping parameters into NaN
+    radii = torch.where(mask, radii, one)
+
     t6 = torch.where(
         mask * (distances <= cutoff),
         damping_function(distances, radii, 6, **param),
-- 
2.43.0


From 9c2eefcfb314ed1dfbfca44b34f3f3c57f8069ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:05 +0000
Subject: [PATCH 12/19] fix: reject van der Waals radii that are not pairwise

Radii of shape (..., nat, 1) passed the shape check and were silently
broadcast.
---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..8c69098 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -380,7 +380,7 @@ class Disp(TensorLike):
 
         if rvdw is None:
             rvdw = self.get_rvdw(numbers)
-        if numbers.shape != rvdw.shape[:-1]:
+        if (*numbers.shape, numbers.shape[-1]) != rvdw.shape:
             raise ValueError(
                 f"Shape of van der Waals radii ({rvdw.shape}) is not "
                 f"consistent with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From f84282d747f72e3cd5808973979463ccc9fb4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 13/19] fix: default total charge of get_properties for batches

The documented default (neutral) raised a ValueError for batches.
---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index aa5daa9..45ac9c0 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -182,7 +182,7 @@ def get_properties(
         cutoff = Cutoff(**dd)
 
     if charge is None:
-        charge = torch.tensor(0.0, **dd)
+        charge = torch.zeros((*numbers.shape[:-1], 1), **dd)
     else:
         charge = any_to_tensor(charge, **dd)
 
-- 
2.43.0


From b105ccecebc5f6694ed66f550705a48d3dcbf320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:27 +0000
Subject: [PATCH 14/19] fix: finite D4S polarizabilities for systems of padding
 only

---
 src/tad_dftd4/model/d4s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index c2f6cca..47be69d 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -312,7 +312,7 @@ class D4SModel(BaseModel):
             Weighted polarizabilities of shape ``(..., nat, 23)``.
         """
         mask = real_atoms(self.numbers)
-        nat = mask.sum(dim=-1, keepdim=True)
+        nat = mask.sum(dim=-1, keepdim=True).clamp(min=1)
 
         a = self._get_alpha()
 
-- 
2.43.0


From 99c7b4a78d337cff00de3b3bd60aef51829f1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:16 +0000
Subject: [PATCH 15/19] fix: models converted to another dtype keep integer
 atomic numbers

---
 src/tad_dftd4/model/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index e178a2d..57de8b7 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -150,6 +150,17 @@ class BaseModel(TensorLike):
         self.wf = self._get_wf() if wf is None else any_to_tensor(wf, **self.dd)
         self.rc6 = self._get_refc6() if rc6 is None else rc6
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ):
+        """Clone with new device and dtype, but keep integer atomic numbers."""
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+        new.numbers = self.numbers.to(device=new.device)
+        return new
+
     ####################
     # Abstract methods #
     ####################
-- 
2.43.0


From 64cfbfad6c9351416c651bfdbbd20353c9ea7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:44 +0000
Subject: [PATCH 16/19] fix: registering terms on a converted method leaves the
 original alone

---
 src/tad_dftd4/dispersion/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 8c69098..a41c069 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -212,6 +212,17 @@ class Disp(TensorLike):
             kw = {} if kw is None else kw.copy()
             self.register(term_cls(**kw))
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ):
+        """Clone with new device and dtype, and with a list of terms of its own."""
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+        new.terms = list(self.terms)
+        return new
+
     def register(self, term: DispTerm) -> None:
         self.terms.append(term)
 
-- 
2.43.0


From 7f60649457a84a6c4c12667c356e78cf656b0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:27 +0000
Subject: [PATCH 17/19] fix: D4S model accepts a single weighting factor

---
 src/tad_dftd4/model/d4s.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 47be69d..f0029df 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -194,7 +194,8 @@ class D4SModel(BaseModel):
         # ordering of the zeta function. Inserting in `-2` does not work!
         #
         # (..., n1, nref) * (..., n1, nref) * (n1, n2) -> (..., n2, n1, nref)
-        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, self.wf)
+        wf = self.wf.expand(*self.numbers.shape, self.numbers.shape[-1])
+        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, wf)
         tmp = torch.where(mask, torch.exp(arg), zero_double)
 
         # Gaussian weighting function part 2: tmp^(igw)
-- 
2.43.0


From 69be3be00884d9353836ca63d656f5b23b008c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:06 +0000
Subject: [PATCH 18/19] fix: honour only_damping in all damping functions

---
 src/tad_dftd4/damping/functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 1b20a4f..66f87ee 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -302,7 +302,12 @@ class RationalDamping(Damping):
         assert a1 is not None and a2 is not None
 
         radius = a1 * torch.sqrt(radii) + a2
-        return 1.0 / (distances.pow(order) + radius.pow(order))
+        damped = 1.0 / (distances.pow(order) + radius.pow(order))
+
+        if only_damping is True:
+            return damped * distances.pow(order)
+
+        return damped
 
 
 class ZeroDamping(Damping):
@@ -431,6 +436,10 @@ class MZeroDamping(Damping):
 
         # f6 / r6
         fn = 1.0 / (1.0 + 6.0 * t_n ** (-alp_n))
+
+        if only_damping is True:
+            return fn
+
         return storch.divide(fn, distances**order)
 
 
@@ -481,7 +490,12 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * radius**order)
+        damped = rb / (rb * distances**order + ab * radius**order)
+
+        if only_damping is True:
+            return damped * distances**order
+
+        return damped
 
 
 class ZDamping(Damping):
-- 
2.43.0


From b95f0afcc12d1c709de062761c25e8b1aaa2158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:28 +0000
Subject: [PATCH 19/19] fix: zero charges for systems of padding only in
 get_properties

---
 src/tad_dftd4/disp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 45ac9c0..89b1b14 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -26,6 +26,7 @@ interactions. It contains the main entrypoint for the dispersion energy
 from __future__ import annotations
 
 import torch
+from tad_mctc.batch import real_atoms
 from tad_mctc.convert import any_to_tensor
 from tad_mctc.ncoord import cn_d4, erf_count
 from tad_mctc.typing import DD, CNFunc, CountingFunction, Tensor
@@ -189,6 +190,9 @@ def get_properties(
     cn = cn_d4(numbers, positions)
     q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)
 
+    # no charge on padding, also for systems of padding only
+    q = torch.where(real_atoms(numbers), q, torch.tensor(0.0, **dd))
+
     model = D4Model(numbers, **dd)
     weights = model.weight_references(cn, q)
     c6 = model.get_atomic_c6(weights)
-- 
2.43.0

