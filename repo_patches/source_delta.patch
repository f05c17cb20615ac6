From 7e4b5f43de843946e24a42da951f412477cd0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 01/12] fix: use the third invariant in its own
 second-derivative term of the hessian

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index b392a47..9642ce8 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -223,7 +223,7 @@ class Invariants:
             d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
 
         if d2WdI3dI3 is not None:
-            d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
+            d2WdCdC = d2WdCdC + d2WdI3dI3 * dya(dI3dC, dI3dC)
 
         if d2WdI1dI2 is not None:
             d2WdCdC = d2WdCdC + d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))
-- 
2.43.0


From 70932aaaba2e70036503ce2c766558795e3c982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 02/12] fix: pass the old state variables to the hessian of the
 material model

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 src/hyperelastic/frameworks/_stretches.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 9642ce8..8ff22d7 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -186,7 +186,7 @@ class Invariants:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         (
             d2WdI1dI1,
             d2WdI2dI2,
diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 9f4c10c..7280772 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -140,7 +140,7 @@ class Stretches:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
         if not isinstance(d2Wdλdλ, np.ndarray):
-- 
2.43.0


From 0c1b34f317e91babc9e75775591cdabead5b3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 03/12] fix: use the strains in the second derivative of the
 third generalized invariant

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index d63c12b..7d0c110 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -285,7 +285,7 @@ class GeneralizedInvariantsModel:
         dEdλ = self.dEdλ
         d2Edλdλ = self.d2Edλdλ
 
-        Eγ = [2, 0, 1]
+        Eγ = self.E[[2, 0, 1]]
 
         d2WdEαdEβ = np.zeros((6, *dWdλα.shape[1:]))
 
-- 
2.43.0


From 1b397fcb45efd3b6ced6b624bade53d640f77c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 04/12] fix: evaluate the dilatational space at the
 dilatational part of the deformation

---
 src/hyperelastic/spaces/_dilatational.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_dilatational.py b/src/hyperelastic/spaces/_dilatational.py
index e4c0fe9..b697941 100644
--- a/src/hyperelastic/spaces/_dilatational.py
+++ b/src/hyperelastic/spaces/_dilatational.py
@@ -19,7 +19,7 @@ class Dilatational(Space):
 
         self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
         self.I3 = det(self.C)
-        self.Co = self.I3 ** (1 / 3) * self.C
+        self.Co = self.I3 ** (1 / 3) * eye(self.C)
         dWodCo, statevars_new = self.material.gradient(self.Co, statevars)
 
         self.Sb = 2 * self.I3 ** (1 / 3) * dWodCo
-- 
2.43.0


From 426a496e2efbb501f30b4c88ac2edd8c947b535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 05/12] fix: keep the graph for coupled energies and skip
 constant derivatives in TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 88aa75c..a39c4b0 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -45,7 +45,7 @@ class TorchModel:
         import torch
 
         out = None
-        if hasattr(fun, "grad_fn"):
+        if getattr(fun, "requires_grad", False):
             out = torch.autograd.grad(
                 fun.sum(), x, allow_unused=allow_unused, **kwargs
             )[0]
@@ -72,7 +72,7 @@ class TorchModel:
         tensor=False,
         numpy=True,
         create_graph=False,
-        retain_graph=False,
+        retain_graph=True,
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
@@ -93,7 +93,7 @@ class TorchModel:
         )
 
         return [
-            self._grad(f, x, numpy=numpy)
+            self._grad(f, x, numpy=numpy, retain_graph=True)
             for f, x in zip(
                 [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
             )
-- 
2.43.0


From ff839e26ff55eae0816ad463793ea8f181d84a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 06/12] fix: accept scalar invariants in TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index a39c4b0..60b64fa 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -1,3 +1,6 @@
+import numpy as np
+
+
 class TorchModel:
     r"""Isotropic hyperelastic material formulation based on a given strain energy
     density function ``fun(I1, I2, I3, **kwargs)`` per unit undeformed volume. The
@@ -59,7 +62,7 @@ class TorchModel:
 
         import torch
 
-        tensors = [torch.Tensor(arg) for arg in args]
+        tensors = [torch.Tensor(np.asarray(arg)) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
-- 
2.43.0


From ab577f9eb5be70304b803654503c32798ae4ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 07/12] fix: do not share the parameters of an optimizer with
 the caller's arrays

---
 src/hyperelastic/lab/_optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index 5751586..da37841 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -156,7 +156,7 @@ class Optimize:
 
         self.experiments = experiments
         self.simulations = simulations
-        self.parameters = parameters
+        self.parameters = np.array([*parameters], dtype=float)
         self.mask = mask
 
         if self.mask is None:
@@ -181,7 +181,7 @@ class Optimize:
         self.residuals = f0 - np.concatenate(self.y)
 
         for simulation in self.simulations:
-            simulation.parameters = self.parameters
+            simulation.parameters = self.parameters.copy()
 
         return self.parameters
 
@@ -205,14 +205,14 @@ class Optimize:
         popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)
         fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])
 
-        self.parameters[:] = popt
-        self.errors[:] = np.sqrt(np.diag(pcov))
-        self.residuals[:] = fopt - np.concatenate(self.y)
+        self.parameters = popt
+        self.errors = np.sqrt(np.diag(pcov))
+        self.residuals = fopt - np.concatenate(self.y)
 
         for simulation in self.simulations:
-            simulation.parameters[:] = self.parameters
+            simulation.parameters = self.parameters.copy()
 
-        return self.parameters, pcov
+        return self.parameters.copy(), pcov
 
     def plot(self, title=None):
         fig, ax = plt.subplots()
-- 
2.43.0


From 17eac3372a3bf83b0ae453c0955f2d56a3886dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 08/12] fix: broadcast constant stress and elasticity tensors
 in all configurations

---
 src/hyperelastic/spaces/_space.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hyperelastic/spaces/_space.py b/src/hyperelastic/spaces/_space.py
index 55ef55b..efdcfb7 100644
--- a/src/hyperelastic/spaces/_space.py
+++ b/src/hyperelastic/spaces/_space.py
@@ -56,15 +56,15 @@ class Space:
             if self.finalize:
                 stress = astensor(stress)
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array stress must be broadcasted
-                    new_shape = np.broadcast_shapes(F.shape, stress.shape)
+                # check if destination array stress must be broadcasted
+                new_shape = np.broadcast_shapes(F.shape, stress.shape)
 
-                    if not np.allclose(new_shape, stress.shape):
-                        # broadcast stress and make a writable contiguous copy
-                        stress = np.broadcast_to(stress, new_shape).copy()
+                if not np.allclose(new_shape, stress.shape):
+                    # broadcast stress and make a writable contiguous copy
+                    stress = np.broadcast_to(stress, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)
 
                 # area --> deformed configuration
@@ -88,15 +88,15 @@ class Space:
                 elasticity = astensor(elasticity, 4)
                 I3 = None
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array elasticity must be broadcasted
-                    new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
+                # check if destination array elasticity must be broadcasted
+                new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
 
-                    if not np.allclose(new_shape, elasticity.shape):
-                        # broadcast elasticity and make a writable contiguous copy
-                        elasticity = np.broadcast_to(elasticity, new_shape).copy()
+                if not np.allclose(new_shape, elasticity.shape):
+                    # broadcast elasticity and make a writable contiguous copy
+                    elasticity = np.broadcast_to(elasticity, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     elasticity = self.einsum(
                         "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                     )
-- 
2.43.0


From 0ea6662901aaf6e9d5d01076161ca485f75f3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 09/12] fix: do not drop small elasticity tensors in the
 distortional space

---
 src/hyperelastic/spaces/_distortional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_distortional.py b/src/hyperelastic/spaces/_distortional.py
index 2cc4928..6eea01b 100644
--- a/src/hyperelastic/spaces/_distortional.py
+++ b/src/hyperelastic/spaces/_distortional.py
@@ -191,7 +191,7 @@ class Distortional(Space):
 
         C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)
 
-        if not np.allclose(C4b, 0):
+        if np.any(C4b):
             C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
 
         return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]
-- 
2.43.0


From 1ef461f49207992cc835059c498a46d8cb947fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 10/12] fix: fill the destination of tril_from_triu and
 triu_from_tril completely

---
 src/hyperelastic/math/_voigt.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 1c3a940..c8fa131 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -224,22 +224,30 @@ def astensor(A, mode=2):
 def tril_from_triu(A, dim=6, out=None):
     "Copy upper triangle values to lower triangle values of a nxn tensor inplace."
 
+    i, j = np.triu_indices(dim, 1)
+    values = A[i, j]
+
     if out is None:
         out = A.copy()
+    elif out is not A:
+        out[...] = A
 
-    i, j = np.triu_indices(dim, 1)
-    out[j, i] = A[i, j]
+    out[j, i] = values
     return out
 
 
 def triu_from_tril(A, dim=6, out=None):
     "Copy lower triangle values to upper triangle values of a nxn tensor inplace."
 
+    i, j = np.tril_indices(dim, -1)
+    values = A[i, j]
+
     if out is None:
         out = A.copy()
+    elif out is not A:
+        out[...] = A
 
-    i, j = np.tril_indices(dim, -1)
-    out[j, i] = A[i, j]
+    out[j, i] = values
     return out
 
 
-- 
2.43.0


From d310791391fc77c9c42bd514964347ee85a751ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 11/12] fix: store the results of cdya_ik and cdya_il in the
 destination array

---
 src/hyperelastic/math/_voigt.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index c8fa131..9d24584 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -784,7 +784,13 @@ def cdya_ik(A, B, out=None):
 
     """
 
-    return np.swapaxes(astensor(dya(A, B, out=out), mode=4), 1, 2)
+    C4 = np.swapaxes(astensor(dya(A, B), mode=4), 1, 2)
+
+    if out is None:
+        return C4
+
+    out[...] = C4
+    return out
 
 
 def cdya_il(A, B, out=None):
@@ -838,7 +844,13 @@ def cdya_il(A, B, out=None):
 
     """
 
-    return np.swapaxes(astensor(dya(A, B, out=out), mode=4), 1, 3)
+    C4 = np.swapaxes(astensor(dya(A, B), mode=4), 1, 3)
+
+    if out is None:
+        return C4
+
+    out[...] = C4
+    return out
 
 
 def cdya(A, B, out=None):
-- 
2.43.0


From 32b0f4d98f3558679426d6dfb759100c684215e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 12/12] fix: evaluate the derivatives of TorchModel with
 disabled gradients of the caller

---
 src/hyperelastic/models/invariants/_torch.py | 40 ++++++++++++--------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 60b64fa..f2b301b 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -79,25 +79,35 @@ class TorchModel:
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
-        if not tensor:
-            I1, I2, I3 = self._astensors(I1, I2, I3)
+        import torch
 
-        f = self.fun(I1, I2, I3, **self.kwargs)
-        kwargs = dict(numpy=numpy, create_graph=create_graph, retain_graph=retain_graph)
+        # the derivatives are also required if the gradients are disabled by the caller
+        with torch.inference_mode(False), torch.enable_grad():
+            if not tensor:
+                I1, I2, I3 = self._astensors(I1, I2, I3)
 
-        return (*[self._grad(f, x, **kwargs) for x in [I1, I2, I3]], statevars)
+            f = self.fun(I1, I2, I3, **self.kwargs)
+            kwargs = dict(
+                numpy=numpy, create_graph=create_graph, retain_graph=retain_graph
+            )
+
+            return (*[self._grad(f, x, **kwargs) for x in [I1, I2, I3]], statevars)
 
     def hessian(self, I1, I2, I3, statevars, numpy=True):
         """The hessian as the second partial derivatives of the strain energy function
         w.r.t. the invariants."""
-        I1, I2, I3 = self._astensors(I1, I2, I3)
-        dWdI1, dWdI2, dWdI3, statevars = self.gradient(
-            I1, I2, I3, statevars, tensor=True, create_graph=True, numpy=False
-        )
-
-        return [
-            self._grad(f, x, numpy=numpy, retain_graph=True)
-            for f, x in zip(
-                [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
+
+        import torch
+
+        with torch.inference_mode(False), torch.enable_grad():
+            I1, I2, I3 = self._astensors(I1, I2, I3)
+            dWdI1, dWdI2, dWdI3, statevars = self.gradient(
+                I1, I2, I3, statevars, tensor=True, create_graph=True, numpy=False
             )
-        ]
+
+            return [
+                self._grad(f, x, numpy=numpy, retain_graph=True)
+                for f, x in zip(
+                    [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
+                )
+            ]
-- 
2.43.0

