From 279d6ed0401aa48f9e231bad5d0749b01128868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 01/20] fix: complex diffraction orders use the first and last
 layers whatever their names

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..368b6ee 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -508,8 +508,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From e14b03baa5ea1d81ae070d1470a1378f6e10d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 02/20] fix: the vector formulations apply the inverse rule to
 the normal component

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 368b6ee..67344ec 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -831,7 +831,7 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From 2c818e9885c771dec26de2661f52dedd2361a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 03/20] fix: tensor permittivities act on the field components
 they are given for

---
 nannos/simulation.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 67344ec..1bd00a4 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -646,7 +646,9 @@ class Simulation:
                 mu_hat_inv = _inv(mu_hat)
 
             if layer.is_epsilon_anisotropic:
-                eps_para_hat = self._get_toeplitz_matrix(epsilon, transverse=True)
+                eps_para_hat = _to_rotated(
+                    self._get_toeplitz_matrix(epsilon, transverse=True)
+                )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
 
@@ -771,12 +773,16 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
-            nu = inv2by2block(eb, N)
-            # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
-            nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
-            nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
+            det = epsilon[0, 0] * epsilon[1, 1] - epsilon[0, 1] * epsilon[1, 0]
+            nu = [
+                [epsilon[1, 1] / det, -epsilon[0, 1] / det],
+                [-epsilon[1, 0] / det, epsilon[0, 0] / det],
+            ]
+            nuhat = [
+                [self._get_toeplitz_matrix(nu[i][j]) for j in range(2)]
+                for i in range(2)
+            ]
+            nuhat_inv = _to_rotated(block2list(_inv(block(nuhat)), self.nh))
 
         else:
             N = epsilon.shape[0]
@@ -856,6 +862,11 @@ def phasor(q, z):
     return bk.exp(1j * q * z)
 
 
+def _to_rotated(m):
+    """2 x 2 blocks acting on (Ex, Ey) -> blocks acting on (-Ey, Ex)"""
+    return [[m[1][1], -m[1][0]], [-m[0][1], m[0][0]]]
+
+
 # def _build_Kmatrix(u, Kx, Ky):
 #     return block(
 #         [
-- 
2.43.0


From 9eb3cbf1c47e553d803ccf47942e4ce3a70e29db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 04/20] fix: stress tensor uses the in-plane permittivity
 operator of the fields

---
 nannos/simulation.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 1bd00a4..01208c6 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -532,11 +532,7 @@ class Simulation:
             dy = ey * layer.epsilon
         else:
             exy = bk.hstack((-ey, ex))
-
-            # FIXME: anisotropy here?
-            # dxy = layer.eps_hat @ exy
-            _eps_hat = block([[layer.eps_hat, self.ZeroG], [self.ZeroG, layer.eps_hat]])
-            dxy = _eps_hat @ exy
+            dxy = layer.Peps @ exy
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-- 
2.43.0


From a11b22afcd45e525ec0293ba2002c7a7d4014d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 05/20] fix: efficiency dictionaries do not overwrite the
 lookup of orders

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 01208c6..bf93ea2 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,8 +480,8 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
+            Rdict = {i1: {} for i1 in self.harmidx_dict}
+            Tdict = {i1: {} for i1 in self.harmidx_dict}
             for i1, i2 in self.harmonics.T:
                 i1 = int(i1)
                 i2 = int(i2)
-- 
2.43.0


From 5e7bef3680b97df0d921b7e05c01552f47f08dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 06/20] fix: resetting the modes also forgets the scattering
 matrices obtained from them

---
 nannos/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index bf93ea2..079a531 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -212,6 +212,8 @@ class Simulation:
             self._intermediate_S = {}
         if param == "solve":
             self.is_solved = False
+            # the scattering matrices are obtained from the modes
+            self.reset("S")
         if param == "all":
             self.reset("S")
             self.reset("solve")
-- 
2.43.0


From d832086ec4e57e6c169102101966dd16b7f3717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 07/20] fix: default grid of the real space fields is that of
 the lattice

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 079a531..a99700b 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -377,7 +377,7 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape
+        shape = shape or self.lattice.discretization
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From d84f6e7008c8206b35216181dc167d88648b09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 08/20] fix: Fourier synthesis of a single vector of amplitudes

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index a99700b..c1b10d8 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -350,7 +350,7 @@ class Simulation:
 
         amplitudes = bk.array(amplitudes)
         if len(amplitudes.shape) == 1:
-            amplitudes = bk.reshape(amplitudes, amplitudes.shape + (1,))
+            amplitudes = bk.reshape(amplitudes, (1,) + tuple(amplitudes.shape))
 
         s = 0
         for i in range(self.nh):
-- 
2.43.0


From aa673ac5e2e14c67293a6cdc83131ba238a088a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 09/20] fix: copies of uniform layers, and copies placed before
 or away from their original

---
 nannos/layers.py     |  7 ++++++-
 nannos/simulation.py | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..954ea96 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -187,7 +187,11 @@ class Layer:
             `(q,psi)`, with eigenvalues `q` and eigenvectors `psi`.
 
         """
-        if self.iscopy:
+        if (
+            self.iscopy
+            and self.original.is_solved
+            and getattr(self.original, "_matrix_solved", None) is matrix
+        ):
             self.eigenvalues, self.eigenvectors = (
                 self.original.eigenvalues,
                 self.original.eigenvectors,
@@ -210,6 +214,7 @@ class Layer:
             q = w**0.5
             q = bk.where(bk.imag(q) < 0.0, -q, q)
             self.eigenvalues, self.eigenvectors = q, v
+            self._matrix_solved = matrix
         return self.eigenvalues, self.eigenvectors
 
     def copy(self, name=None):
diff --git a/nannos/simulation.py b/nannos/simulation.py
index c1b10d8..e21fb57 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -155,6 +155,9 @@ class Simulation:
         # dictionary to store intermediate S-matrices
         # TODO: check memory consumption of doing that, maybe make it optional.
         self._intermediate_S = {}
+        # patterned layers solved during the current call of `solve`, so that
+        # their copies can use the same matrices
+        self._layers_built = []
 
     def get_layer(self, id):
         """Helper to get layer index and name.
@@ -181,6 +184,7 @@ class Simulation:
         _t0 = timer.tic()
         logger.info("Solving")
         layers_solved = []
+        self._layers_built = []
         for layer in self.layers:
             _t0lay = timer.tic()
             logger.info(f"Computing eigenpairs for layer {layer}")
@@ -189,6 +193,7 @@ class Simulation:
                 layer.solve_uniform(self.omega, self.kx, self.ky, self.nh)
             else:
                 layer.solve_eigenproblem(layer.matrix)
+                self._layers_built.append(layer)
 
                 # ## normalize
                 # phi = layer.eigenvectors
@@ -202,6 +207,7 @@ class Simulation:
                 f"Done computing eigenpairs for layer {layer} in {_t1lay:0.3e}s"
             )
         self.layers = layers_solved
+        self._layers_built = []
         self.is_solved = True
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done solving in {_t1:0.3e}s")
@@ -587,9 +593,14 @@ class Simulation:
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
-        if layer.iscopy:
+        if (
+            layer.iscopy
+            and layer.epsilon is layer.original.epsilon
+            and any(layer.original is other for other in self._layers_built)
+        ):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
+            layer.Pmu = layer.original.Pmu
             layer.eps_hat = layer.original.eps_hat
             layer.eps_hat_inv = layer.original.eps_hat_inv
             layer.mu_hat = layer.original.mu_hat
-- 
2.43.0


From ff1f19d8cc308c91d7ddb0bc5a71380d54a6d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 10/20] fix: circular truncation uses the lengths of the
 reciprocal lattice vectors and keeps the zeroth order

---
 nannos/lattice.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..0b70004 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -128,9 +128,9 @@ class Lattice:
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
         if self.truncation == "circular":
-            return _circular_truncation(nh, self.reciprocal)
+            return _circular_truncation(nh, self.reciprocal.T)
         elif self.truncation == "parallelogrammic":
-            return _parallelogramic_truncation(nh, self.reciprocal)
+            return _parallelogramic_truncation(nh, self.reciprocal.T)
         else:
             return _one_dim_truncation(nh)
 
@@ -306,7 +306,7 @@ def _parallelogramic_truncation(nh, Lk):
     G = bk.meshgrid(xG, xG, indexing="ij")
     G = [g.flatten() for g in G]
 
-    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
 
@@ -338,7 +338,7 @@ def _circular_truncation(nh, Lk):
     G = [g.flatten() for g in G]
 
     Gl2 = bk.array(
-        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     )
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
@@ -352,7 +352,7 @@ def _circular_truncation(nh, Lk):
     for i in bk.arange(nGtmp - 1, -1, -1):
         if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nh = i
+    nh = max(int(i), 1)
 
     G = bk.vstack(Gsorted)[:, :nh]
 
-- 
2.43.0


From 368293d5ecc57e36c9eab87cce516cccc69b5546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 11/20] fix: working precision given to array constructors
 whose default type is single on torch

---
 nannos/excitation.py    |  2 +-
 nannos/geometry.py      |  8 +++++---
 nannos/lattice.py       |  4 ++--
 nannos/optimize.py      | 12 +++++++-----
 nannos/simulation.py    |  2 +-
 nannos/utils/helpers.py | 16 ++++++++++++----
 6 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/nannos/excitation.py b/nannos/excitation.py
index 485dc57..7079ed1 100644
--- a/nannos/excitation.py
+++ b/nannos/excitation.py
@@ -64,7 +64,7 @@ class PlaneWave:
         kt = self.wavevector
         omega = k0
         K = bk.array([[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]])
-        Q = omega**2 * bk.array(bk.eye(2)) - K
+        Q = omega**2 * bk.array(bk.eye(2, dtype=FLOAT)) - K
         q = (omega**2 - kt[0] ** 2 - kt[1] ** 2) ** 0.5
         C = bk.linalg.inv(Q) * (omega * q)
         et = bk.array([-self.amplitude[1], self.amplitude[0]])
diff --git a/nannos/geometry.py b/nannos/geometry.py
index 7b67b04..21c9002 100644
--- a/nannos/geometry.py
+++ b/nannos/geometry.py
@@ -16,7 +16,9 @@ import shapely.affinity as sa
 import shapely.geometry as sg
 
 from . import backend as bk
-from . import get_backend
+from . import get_backend, get_types
+
+FLOAT, COMPLEX = get_types()
 
 # from https://gist.github.com/perrette/a78f99b76aed54b6babf3597e0b331f8
 
@@ -106,8 +108,8 @@ def shape_mask(shp, x, y, m=None):
 
 
 def geometry_mask(geom, lattice, Nx, Ny):
-    x0 = bk.linspace(0, 1.0, Nx)
-    y0 = bk.linspace(0, 1.0, Ny)
+    x0 = bk.linspace(0, 1.0, Nx, dtype=FLOAT)
+    y0 = bk.linspace(0, 1.0, Ny, dtype=FLOAT)
     x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
     grid = bk.stack([x_, y_])
     x, y = grid[0][:, 0], grid[1][0, :]
diff --git a/nannos/lattice.py b/nannos/lattice.py
index 0b70004..72d80de 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -155,8 +155,8 @@ class Lattice:
 
         """
         Nx, Ny = self.discretization
-        x0 = bk.array(bk.linspace(0, 1.0, Nx))
-        y0 = bk.array(bk.linspace(0, 1.0, Ny))
+        x0 = bk.array(bk.linspace(0, 1.0, Nx, dtype=FLOAT))
+        y0 = bk.array(bk.linspace(0, 1.0, Ny, dtype=FLOAT))
         x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
         return bk.stack([x_, y_])
 
diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..0ea3f7c 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -26,7 +26,7 @@ def project(x, beta=1, thres=0.5):
     x = bk.array(x)
 
     def tanh(z):
-        return bk.tanh(bk.array(z))
+        return bk.tanh(bk.array(z, dtype=FLOAT))
 
     return ((tanh(thres * beta)) + tanh(beta * (x - thres))) / (
         tanh(thres * beta) + (tanh((1 - thres) * beta))
@@ -34,24 +34,26 @@ def project(x, beta=1, thres=0.5):
 
 
 def multi_project(x, beta=1, Nthres=2):
-    thresholds = bk.linspace(0, 1, Nthres + 1)[1:-1]
+    thresholds = bk.linspace(0, 1, Nthres + 1, dtype=FLOAT)[1:-1]
     out = sum(project(x, beta, thres) for thres in thresholds)
     return out / len(thresholds)
 
 
 def multi_simp(x, epsilons, p=1):
-    epsilons = bk.array(epsilons) + 0j
+    epsilons = bk.array(epsilons, dtype=COMPLEX)
     nthres = len(epsilons)
     npts = nthres
     if nthres == 2:
         return simp(x, epsilons[0], epsilons[1], p)
-    pts = bk.linspace(0, 1, npts)
+    pts = bk.linspace(0, 1, npts, dtype=FLOAT)
 
     def pol(coefs, x):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
 
     def mat(pts):
-        return bk.array([[_x ** (n * p) + 0j for n in range(npts)] for _x in pts])
+        return bk.array(
+            [[_x ** (n * p) + 0j for n in range(npts)] for _x in pts], dtype=COMPLEX
+        )
 
     M = mat(pts)
     coefs = bk.linalg.inv(M) @ epsilons
diff --git a/nannos/simulation.py b/nannos/simulation.py
index e21fb57..f2e6011 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -518,7 +518,7 @@ class Simulation:
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-        o0 = bk.array(bk.zeros(self.nh))
+        o0 = bk.array(bk.zeros(self.nh, dtype=FLOAT))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
         return r, t
diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..88edfef 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -141,12 +141,20 @@ def _apply_filter(x, rfilt, vectors=None):
     Nx, Ny = x.shape
 
     if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny))
+        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=FLOAT))
+        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=FLOAT))
 
     else:
-        tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
-        ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
+        tx = bk.array(
+            bk.linspace(
+                -0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx, dtype=FLOAT
+            )
+        )
+        ty = bk.array(
+            bk.linspace(
+                -0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny, dtype=FLOAT
+            )
+        )
     bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
     bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
     bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-- 
2.43.0


From 7b2dcacbee283ca243605ef9f230845d3f564536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 12/20] fix: arrays made from torch tensors get the type asked
 for

---
 nannos/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 8f46675..4a482e9 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -281,7 +281,7 @@ elif "_TORCH" in globals():
 
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
-                return a.to(torch.device(DEVICE))
+                return a.to(torch.device(DEVICE), **kwargs)
             else:
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
-- 
2.43.0


From 3918d385a89eba2caa9d686f55b2dd494a6000f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 13/20] fix: tangent field type given as an argument is used

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 954ea96..287fb6f 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -275,7 +275,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 205ad21c81885655392b591a28559aef4bdc45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 14/20] fix: the point returned when the stop value is reached
 is the one that reached it

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 0ea3f7c..1704e89 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -73,9 +73,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = x
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From ad299b09d0e337e33ad38631a5b4280ccf23964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 15/20] fix: area of bi-periodic lattices on every backend

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 72d80de..727a85a 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -73,7 +73,7 @@ class Lattice:
         if self.is_1D:
             return self.basis_vectors[0][0]
         v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        return abs(v[0][0] * v[1][1] - v[0][1] * v[1][0])
 
     @property
     def matrix(self):
-- 
2.43.0


From d3276e9a25825d0275f48a8ee9acdb67ae586ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 16/20] fix: layers on different lattices, orders that are no
 pairs and harmonics beyond the grid are refused in every mode of the
 interpreter

---
 nannos/simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index f2e6011..aad5b38 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -56,9 +56,8 @@ class Simulation:
         # check if all layers share the same lattice
         lattice0 = self.layers[0].lattice
         for layer in self.layers:
-            assert layer.lattice == lattice0, ValueError(
-                "lattice must be the same for all layers"
-            )
+            if layer.lattice != lattice0:
+                raise ValueError("lattice must be the same for all layers")
         self.lattice = lattice0
         # nh0 is the number of harmonics required as input that might be different
         # from the one used after truncation
@@ -95,7 +94,7 @@ class Simulation:
                 idict[i1] = {i2: j}
         self.harmidx_dict = idict
         # Check if nh and resolution satisfy Nyquist criteria
-        maxN = bk.max(self.harmonics)
+        maxN = bk.max(bk.abs(self.harmonics))
         if self.lattice.discretization[0] <= 2 * maxN or (
             self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D
         ):
@@ -562,7 +561,7 @@ class Simulation:
 
     def get_order_index(self, order):
         try:
-            len(order) == 2
+            is_pair = len(order) == 2
         except Exception as e:
             if self.lattice.is_1D and isinstance(order, int):
                 order = (order, 0)
@@ -570,6 +569,9 @@ class Simulation:
                 raise ValueError(
                     "order must be a tuple of integers length 2 for bi-periodic gratings"
                 ) from e
+            is_pair = True
+        if not is_pair:
+            raise ValueError("order must be a tuple of integers length 2")
         # return [
         #     k for k, i in enumerate(self.harmonics.T) if bk.allclose(i, bk.array(order))
         # ][0]
-- 
2.43.0


From 9686d469f326280eee7a6908d40d7e4647b2fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 17/20] fix: the adaptive sampler uses plain arrays on every
 backend

---
 nannos/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index 212b904..75f6188 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -8,7 +8,8 @@
 
 __all__ = ["adaptive_sampler"]
 
-from . import numpy as np
+import numpy as np
+
 from .parallel import parloop
 
 
-- 
2.43.0


From edaf995aad5c3724b800b023b6d776077555e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 18/20] fix: dictionaries of complex coefficients hold the
 three components of each order

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index aad5b38..ba6594c 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -493,8 +493,8 @@ class Simulation:
                 i1 = int(i1)
                 i2 = int(i2)
                 idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+                Rdict[i1][i2] = R[..., idx]
+                Tdict[i1][i2] = T[..., idx]
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From 565583c0a328c74bd79b92104c096046eaf67e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 19/20] fix: project keeps double precision for a python number
 on the torch backend

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 1704e89..79af06d 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -23,7 +23,7 @@ def simp(x, eps_min, eps_max, p=1):
 
 
 def project(x, beta=1, thres=0.5):
-    x = bk.array(x)
+    x = bk.array(x, dtype=FLOAT)
 
     def tanh(z):
         return bk.tanh(bk.array(z, dtype=FLOAT))
-- 
2.43.0


From 75641df78f53fe07b28d15e752eb50226a820031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:27 +0000
Subject: [PATCH 20/20] fix: count a given array of orders without bk.shape,
 which torch does not have

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 727a85a..8b621fe 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -123,7 +123,7 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
+            nh = len(self.harmonics_array[0])
             return self.harmonics_array, nh
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
-- 
2.43.0

