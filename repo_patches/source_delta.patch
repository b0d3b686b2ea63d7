From 6a5054d17132b5a875c694f9f7623f39f91ce5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 01/28] fix: apply the inverse rule to the component normal to
 the interfaces

In the 2D tangent, jones and pol formulations the diagonal blocks of the
projector were swapped, so the inverse factorization rule was applied along
the tangent field (stripes in a 2D lattice disagreed with the 1D lattice).
---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..212087c 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -831,7 +831,7 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From 1bc0d3fb2e431543002da3e181ae463a0756cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 02/28] fix: return_dict of diffraction_efficiencies overwrote
 the order indices

The shallow copies shared their inner dictionaries: R was returned with the
values of T, and the indices of the orders were lost for later calls.
---
 nannos/simulation.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 212087c..f902f7a 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,14 +480,10 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
-            for i1, i2 in self.harmonics.T:
-                i1 = int(i1)
-                i2 = int(i2)
-                idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+            Rdict, Tdict = {}, {}
+            for i1, row in self.harmidx_dict.items():
+                Rdict[i1] = {i2: R[idx] for i2, idx in row.items()}
+                Tdict[i1] = {i2: T[idx] for i2, idx in row.items()}
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From c686f75347ff98c3025a677216020df0c88855d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 03/28] fix: complex diffraction orders whatever the names of
 the outer layers

The first and last layers were looked up as "Superstrate" and "Substrate".
---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index f902f7a..9057be2 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -504,8 +504,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From 0230485837c2bfc1aca5201a6328581ada132801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 04/28] fix: negative layer indices select the layer counted
 from the end

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..ed06bdc 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -303,7 +303,7 @@ def _get_layer(id, layers, layer_names):
             if l.name == id:
                 return l, i
     elif isinstance(id, int):
-        return layers[id], id
+        return layers[id], id if id >= 0 else id + len(layers)
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
     else:
-- 
2.43.0


From 18d0eec2751337c4b9c28f8e04666d19d133f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 05/28] fix: truncation norm for rectangular and oblique
 lattices

The harmonics were ordered with rows instead of columns of the reciprocal
matrix and with the first reciprocal length for both directions, so the
circular truncation left out harmonics shorter than some it kept.
---
 nannos/lattice.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..9c8d2dc 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -293,6 +293,7 @@ def _one_dim_truncation(nh):
 
 
 def _parallelogramic_truncation(nh, Lk):
+    Lk = Lk.T  # the reciprocal vectors are the columns of the reciprocal matrix
     u = bk.array([bk.linalg.norm(value) for value in Lk])
     udot = bk.dot(Lk[0], Lk[1])
 
@@ -306,7 +307,7 @@ def _parallelogramic_truncation(nh, Lk):
     G = bk.meshgrid(xG, xG, indexing="ij")
     G = [g.flatten() for g in G]
 
-    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
 
@@ -318,6 +319,7 @@ def _parallelogramic_truncation(nh, Lk):
 
 
 def _circular_truncation(nh, Lk):
+    Lk = Lk.T  # the reciprocal vectors are the columns of the reciprocal matrix
     u = bk.array([bk.linalg.norm(value) for value in Lk])
     udot = bk.dot(Lk[0], Lk[1])
     ucross = bk.array(Lk[0][0] * Lk[1][1] - Lk[0][1] * Lk[1][0])
@@ -338,7 +340,7 @@ def _circular_truncation(nh, Lk):
     G = [g.flatten() for g in G]
 
     Gl2 = bk.array(
-        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     )
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
-- 
2.43.0


From e1562d1f94cdae6268ac02b94048f64940e355f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 06/28] fix: keep the design that reached the stop value

The optimizer returned the previous design with the new value, and failed
when the first evaluation already reached the stop value.
---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..83f5759 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -71,9 +71,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = x
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From 127ea8a81aeffa13f03170e709665292b1cc9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 07/28] fix: default grid of the fields in uniform and
 anisotropic layers

---
 nannos/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 9057be2..d80b290 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -375,7 +375,12 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape
+        if shape is None:
+            shape = (
+                self.lattice.discretization
+                if layer.is_uniform
+                else tuple(layer.epsilon.shape[-2:])
+            )
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From 7148a4aee47fc876d8722fc845abba157599c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 08/28] fix: use the requested type of tangent field

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index ed06bdc..c248457 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -270,7 +270,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 821c720a6cd6969b11376b0a1b74a6b3b4767034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 09/28] fix: simulations sharing layers no longer mix up their
 modes

The modes are stored in the layers: after a second simulation using the same
layers was solved, the first one combined its S-matrix with the modes of the
second. Solve again in this case, and drop the S-matrices of the former modes.
---
 nannos/simulation.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index d80b290..ba52010 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -156,6 +156,22 @@ class Simulation:
         # TODO: check memory consumption of doing that, maybe make it optional.
         self._intermediate_S = {}
 
+    @property
+    def is_solved(self):
+        # the modes are stored in the layers, which can be shared: they are those
+        # of this simulation only if it is the last one that solved them.
+        return self._solution is not None and all(
+            getattr(layer, "_solution", None) is self._solution
+            for layer in self.layers
+        )
+
+    @is_solved.setter
+    def is_solved(self, solved):
+        self._solution = object() if solved else None
+        if solved:
+            for layer in self.layers:
+                layer._solution = self._solution
+
     def get_layer(self, id):
         """Helper to get layer index and name.
 
@@ -180,6 +196,7 @@ class Simulation:
         """Solve the grating problem."""
         _t0 = timer.tic()
         logger.info("Solving")
+        self.reset()
         layers_solved = []
         for layer in self.layers:
             _t0lay = timer.tic()
@@ -466,7 +483,7 @@ class Simulation:
             The reflection and transmission ``R`` and ``T``.
 
         """
-        if not hasattr(self, "S"):
+        if not self.is_solved or not hasattr(self, "S"):
             self.get_S_matrix()
 
         if complex:
@@ -762,7 +779,7 @@ class Simulation:
         return ai, bi
 
     def _solve_ext(self):
-        if not hasattr(self, "S"):
+        if not self.is_solved or not hasattr(self, "S"):
             self.get_S_matrix()
         aN = self.S[0][0] @ self.a0 + self.S[0][1] @ self.bN
         b0 = self.S[1][0] @ self.a0 + self.S[1][1] @ self.bN
-- 
2.43.0


From 445ff21b5cc88e8dcd9b6c6f24a41ed5cf803ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 10/28] fix: copies of layers are solved wherever they stand in
 the stack

A copy of a uniform layer, a copy placed before its original or without it
in the stack, or a copy of a copy raised AttributeError (or silently used the
modes of another simulation): share the matrices and modes of the original
only when it has just been processed in the same stack.
---
 nannos/layers.py     |  2 +-
 nannos/simulation.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index c248457..eea5ad6 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -187,7 +187,7 @@ class Layer:
             `(q,psi)`, with eigenvalues `q` and eigenvectors `psi`.
 
         """
-        if self.iscopy:
+        if self.iscopy and matrix is getattr(self.original, "matrix", None):
             self.eigenvalues, self.eigenvectors = (
                 self.original.eigenvalues,
                 self.original.eigenvectors,
diff --git a/nannos/simulation.py b/nannos/simulation.py
index ba52010..e70c5fc 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -607,7 +607,16 @@ class Simulation:
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
-        if layer.iscopy:
+        # a copy shares the matrices of its original only if this has been
+        # processed before in the same stack and is still the same material
+        if (
+            layer.iscopy
+            and not layer.is_uniform
+            and any(other is layer.original for other in self.layers[:layer_index])
+            and layer.epsilon is layer.original.epsilon
+            and layer.tangent_field is layer.original.tangent_field
+            and layer.tangent_field_type == layer.original.tangent_field_type
+        ):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
             layer.eps_hat = layer.original.eps_hat
-- 
2.43.0


From 5ef2ec702e5310ee48ef426135e380d0c430cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 11/28] fix: orientation of the permittivity tensor of
 anisotropic layers

The transverse electric field is stored as (-Ey, Ex) but the in-plane tensor
was used in the (Ex, Ey) order: anisotropic layers behaved as if rotated by
90 degrees (a plate with eps_xx=2, eps_yy=5 reflected x-polarized light as an
isotropic plate of permittivity 5).
---
 nannos/simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index e70c5fc..56cc742 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -673,7 +673,9 @@ class Simulation:
                 mu_hat_inv = _inv(mu_hat)
 
             if layer.is_epsilon_anisotropic:
-                eps_para_hat = self._get_toeplitz_matrix(epsilon, transverse=True)
+                eps_para_hat = _to_para_basis(
+                    self._get_toeplitz_matrix(epsilon, transverse=True)
+                )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
 
@@ -803,7 +805,7 @@ class Simulation:
             # nu = _inv(epsilon[2,2])
             nu1 = bk.array(block2list(nu, N))
             nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
-            nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
+            nuhat_inv = _to_para_basis(block2list(_inv(block(nuhat)), self.nh))
 
         else:
             N = epsilon.shape[0]
@@ -879,6 +881,11 @@ class Simulation:
         return plot_structure(self, plotter, nper, dz, null_thickness, **kwargs)
 
 
+def _to_para_basis(e):
+    # the transverse electric field is stored as (-Ey, Ex)
+    return [[e[1][1], -e[1][0]], [-e[0][1], e[0][0]]]
+
+
 def phasor(q, z):
     return bk.exp(1j * q * z)
 
-- 
2.43.0


From 1e74f0db57a68b3070040b69bd217d7c6414601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 12/28] fix: dictionaries of complex amplitudes indexed the
 components

With complex=True the amplitudes have shape (3, nh): the order index was applied
to the field components, raising IndexError or returning wrong amplitudes.
---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 56cc742..7bf2c04 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -504,8 +504,8 @@ class Simulation:
         if return_dict and orders:
             Rdict, Tdict = {}, {}
             for i1, row in self.harmidx_dict.items():
-                Rdict[i1] = {i2: R[idx] for i2, idx in row.items()}
-                Tdict[i1] = {i2: T[idx] for i2, idx in row.items()}
+                Rdict[i1] = {i2: R[..., idx] for i2, idx in row.items()}
+                Tdict[i1] = {i2: T[..., idx] for i2, idx in row.items()}
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From e5dc4c18007f6ac65f4fef48a49a6483217b3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 13/28] fix: inverse rule for anisotropic layers on rectangular
 grids

The pointwise inverse of the in-plane tensor sliced its blocks assuming a square
grid: with Nx != Ny it failed or inverted the wrong entries.
---
 nannos/simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 7bf2c04..2a5a661 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -800,11 +800,13 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
-            nu = inv2by2block(eb, N)
-            # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
-            nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
+            # pointwise inverse of the in-plane tensor
+            det = epsilon[0, 0] * epsilon[1, 1] - epsilon[0, 1] * epsilon[1, 0]
+            nu = [
+                [epsilon[1, 1] / det, -epsilon[0, 1] / det],
+                [-epsilon[1, 0] / det, epsilon[0, 0] / det],
+            ]
+            nuhat = [[self._get_toeplitz_matrix(n) for n in row] for row in nu]
             nuhat_inv = _to_para_basis(block2list(_inv(block(nuhat)), self.nh))
 
         else:
-- 
2.43.0


From d98c5773515377bf428a9ab76485563754da04c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 14/28] fix: rounding noise no longer reverses propagating
 modes

A propagating mode of a patterned layer with an imaginary part of -1e-16 was
taken as travelling backwards, which can make the S-matrix recursion singular
(torch, constant array of permittivity 1: R+T = 1.017).
---
 nannos/layers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index eea5ad6..b10ec21 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -208,7 +208,10 @@ class Layer:
             else:
                 w, v = eig_func(matrix)
             q = w**0.5
-            q = bk.where(bk.imag(q) < 0.0, -q, q)
+            # the sign of a negligible imaginary part is rounding noise: do not
+            # reverse propagating modes
+            tol = bk.finfo(FLOAT).eps ** 0.5
+            q = bk.where(bk.imag(q) < -tol * bk.abs(q), -q, q)
             self.eigenvalues, self.eigenvectors = q, v
         return self.eigenvalues, self.eigenvectors
 
-- 
2.43.0


From b247715d66476ec485f319ddece21b326d80728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 15/28] fix: area of bi-periodic lattices with torch and jax

The cross product of the basis vectors (lists or tuples) raised TypeError.
---
 nannos/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 9c8d2dc..e99a5e8 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -72,8 +72,8 @@ class Lattice:
     def area(self):
         if self.is_1D:
             return self.basis_vectors[0][0]
-        v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        v = self.matrix
+        return bk.abs(v[0, 0] * v[1, 1] - v[0, 1] * v[1, 0])
 
     @property
     def matrix(self):
-- 
2.43.0


From f40b738de6b563680503573254ff56db9936381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 16/28] fix: user supplied harmonics with torch

torch has no shape function: a lattice with harmonics_array raised AttributeError.
---
 nannos/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index e99a5e8..eb4833f 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -123,8 +123,8 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
-            return self.harmonics_array, nh
+            harmonics = bk.array(self.harmonics_array)
+            return harmonics, harmonics.shape[1]
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
         if self.truncation == "circular":
-- 
2.43.0


From 5297ece2535bbbcb16e16690ef8386706fd70c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 17/28] fix: adaptive sampler with the jax backend

The samples are kept in lists, which the functions of jax.numpy refuse.
---
 nannos/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index 212b904..75f6188 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -8,7 +8,8 @@
 
 __all__ = ["adaptive_sampler"]
 
-from . import numpy as np
+import numpy as np
+
 from .parallel import parloop
 
 
-- 
2.43.0


From 08ff241be4d9d94a06dc6af5f39a6b29b7004314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 18/28] fix: multi-material interpolation of double precision
 permittivities with torch

---
 nannos/optimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 83f5759..039050a 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -51,7 +51,10 @@ def multi_simp(x, epsilons, p=1):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
 
     def mat(pts):
-        return bk.array([[_x ** (n * p) + 0j for n in range(npts)] for _x in pts])
+        return bk.array(
+            [[_x ** (n * p) + 0j for n in range(npts)] for _x in pts],
+            dtype=epsilons.dtype,
+        )
 
     M = mat(pts)
     coefs = bk.linalg.inv(M) @ epsilons
-- 
2.43.0


From f6e6dada784a7834559523e6f0ca7b457c0458c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 19/28] fix: a simulation that fails while solving does not
 leave its modes to others sharing its layers

---
 nannos/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 2a5a661..a2ba83d 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -201,6 +201,8 @@ class Simulation:
         for layer in self.layers:
             _t0lay = timer.tic()
             logger.info(f"Computing eigenpairs for layer {layer}")
+            # from now on the layer does not hold the modes of another simulation
+            layer._solution = None
             layer = self.build_matrix(layer)
             if layer.is_uniform:
                 layer.solve_uniform(self.omega, self.kx, self.ky, self.nh)
-- 
2.43.0


From 486759b5e3aeb4dc21e0bb123bfdd2eee5b3826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 20/28] fix: get_ifft_amplitudes of a single set of amplitudes

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index a2ba83d..ee8b523 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -367,7 +367,7 @@ class Simulation:
 
         amplitudes = bk.array(amplitudes)
         if len(amplitudes.shape) == 1:
-            amplitudes = bk.reshape(amplitudes, amplitudes.shape + (1,))
+            amplitudes = bk.reshape(amplitudes, (1,) + amplitudes.shape)
 
         s = 0
         for i in range(self.nh):
-- 
2.43.0


From 2efc65d3b3a8a44f03f93193ff34af8f5b9befa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 21/28] fix: falling back to numpy when a back end is not
 installed left modules on the previous one

---
 nannos/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 8f46675..ac4764a 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -269,7 +269,11 @@ elif "_JAX" in globals():
 
     else:
         logger.warning("jax not found. Falling back to default numpy backend.")
-        set_backend("numpy")
+        import numpy
+
+        _delvar("_JAX")
+        grad = _grad
+        backend = numpy
 elif "_TORCH" in globals():
     if HAS_TORCH:
         import numpy
@@ -300,7 +304,11 @@ elif "_TORCH" in globals():
 
     else:
         logger.warning("pytorch not found. Falling back to default numpy backend.")
-        set_backend("numpy")
+        import numpy
+
+        _delvar("_TORCH")
+        grad = _grad
+        backend = numpy
 else:
     import numpy
 
-- 
2.43.0


From abf77999a7daf74ece51572f1e893959c8ec45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 22/28] fix: amplitudes of the plane wave were rounded to
 single precision with torch

The product of a zero-dimensional double tensor and the single precision
bk.eye(2) is in single precision: all results of the torch backend were
affected at the 1e-8 level.
---
 nannos/excitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/excitation.py b/nannos/excitation.py
index 485dc57..7079ed1 100644
--- a/nannos/excitation.py
+++ b/nannos/excitation.py
@@ -64,7 +64,7 @@ class PlaneWave:
         kt = self.wavevector
         omega = k0
         K = bk.array([[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]])
-        Q = omega**2 * bk.array(bk.eye(2)) - K
+        Q = omega**2 * bk.array(bk.eye(2, dtype=FLOAT)) - K
         q = (omega**2 - kt[0] ** 2 - kt[1] ** 2) ** 0.5
         C = bk.linalg.inv(Q) * (omega * q)
         et = bk.array([-self.amplitude[1], self.amplitude[0]])
-- 
2.43.0


From c2579b9d170f627b51b55645e4c6cee46efd4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 23/28] fix: incident amplitude in the reflected orders was
 rounded to single precision with torch

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index ee8b523..63791b6 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -530,7 +530,7 @@ class Simulation:
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-        o0 = bk.array(bk.zeros(self.nh))
+        o0 = bk.array(bk.zeros(self.nh, dtype=FLOAT))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
         return r, t
-- 
2.43.0


From 497314fa548be47a3b69cc90df65c5070f039e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 24/28] fix: grid points were rounded to single precision with
 torch

---
 nannos/geometry.py | 8 +++++---
 nannos/lattice.py  | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nannos/geometry.py b/nannos/geometry.py
index 7b67b04..21c9002 100644
--- a/nannos/geometry.py
+++ b/nannos/geometry.py
@@ -16,7 +16,9 @@ import shapely.affinity as sa
 import shapely.geometry as sg
 
 from . import backend as bk
-from . import get_backend
+from . import get_backend, get_types
+
+FLOAT, COMPLEX = get_types()
 
 # from https://gist.github.com/perrette/a78f99b76aed54b6babf3597e0b331f8
 
@@ -106,8 +108,8 @@ def shape_mask(shp, x, y, m=None):
 
 
 def geometry_mask(geom, lattice, Nx, Ny):
-    x0 = bk.linspace(0, 1.0, Nx)
-    y0 = bk.linspace(0, 1.0, Ny)
+    x0 = bk.linspace(0, 1.0, Nx, dtype=FLOAT)
+    y0 = bk.linspace(0, 1.0, Ny, dtype=FLOAT)
     x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
     grid = bk.stack([x_, y_])
     x, y = grid[0][:, 0], grid[1][0, :]
diff --git a/nannos/lattice.py b/nannos/lattice.py
index eb4833f..9264006 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -155,8 +155,8 @@ class Lattice:
 
         """
         Nx, Ny = self.discretization
-        x0 = bk.array(bk.linspace(0, 1.0, Nx))
-        y0 = bk.array(bk.linspace(0, 1.0, Ny))
+        x0 = bk.array(bk.linspace(0, 1.0, Nx, dtype=FLOAT))
+        y0 = bk.array(bk.linspace(0, 1.0, Ny, dtype=FLOAT))
         x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
         return bk.stack([x_, y_])
 
-- 
2.43.0


From d5244ada11ec357d2e662475bc22d2ed7233ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 25/28] fix: filters and tangent fields were rounded to single
 precision with torch

---
 nannos/formulations/tangent.py |  7 +++++--
 nannos/utils/helpers.py        | 12 ++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 6c9fd60..edaeb46 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -10,9 +10,12 @@ from scipy.interpolate import RegularGridInterpolator
 from scipy.optimize import minimize
 
 from .. import backend as bk
+from .. import get_types
 from ..utils import apply_filter, norm
 from .fft import fourier_transform, inverse_fourier_transform
 
+FLOAT, COMPLEX = get_types()
+
 
 def _normalize(x, n, invalid=0, threshold=0.0):
     with npo.errstate(invalid="ignore"):
@@ -44,8 +47,8 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
     norma = norm(v)
     N = [bk.array(v[i]) * bk.abs(vf[i]) for i in range(2)]
     N = [_normalize(N[i], norma) for i in range(2)]
-    fx = bk.fft.fftfreq(3 * Nx)
-    fy = bk.fft.fftfreq(3 * Ny)
+    fx = bk.array(npo.fft.fftfreq(3 * Nx), dtype=FLOAT)
+    fy = bk.array(npo.fft.fftfreq(3 * Ny), dtype=FLOAT)
     Fx, Fy = bk.meshgrid(fx, fy, indexing="ij")
     ghat = _ft_filt(Fx**2 + Fy**2, expo=expo) * Nx * Ny
     # ghat = apply_filter(Fx**2 + Fy**2, rfilt)
diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..9fcecf1 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -141,12 +141,16 @@ def _apply_filter(x, rfilt, vectors=None):
     Nx, Ny = x.shape
 
     if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny))
+        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=FLOAT))
+        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=FLOAT))
 
     else:
-        tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
-        ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
+        tx = bk.array(
+            bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx, dtype=FLOAT)
+        )
+        ty = bk.array(
+            bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny, dtype=FLOAT)
+        )
     bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
     bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
     bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-- 
2.43.0


From e1f14d756e6410ee0071d292557a7818b5f06de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 26/28] fix: projection thresholds and material interpolation
 were rounded to single precision with torch

---
 nannos/optimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 039050a..8a0f6b8 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -23,10 +23,10 @@ def simp(x, eps_min, eps_max, p=1):
 
 
 def project(x, beta=1, thres=0.5):
-    x = bk.array(x)
+    x = bk.array(x, dtype=FLOAT)
 
     def tanh(z):
-        return bk.tanh(bk.array(z))
+        return bk.tanh(bk.array(z, dtype=FLOAT))
 
     return ((tanh(thres * beta)) + tanh(beta * (x - thres))) / (
         tanh(thres * beta) + (tanh((1 - thres) * beta))
@@ -34,18 +34,18 @@ def project(x, beta=1, thres=0.5):
 
 
 def multi_project(x, beta=1, Nthres=2):
-    thresholds = bk.linspace(0, 1, Nthres + 1)[1:-1]
+    thresholds = bk.linspace(0, 1, Nthres + 1, dtype=FLOAT)[1:-1]
     out = sum(project(x, beta, thres) for thres in thresholds)
     return out / len(thresholds)
 
 
 def multi_simp(x, epsilons, p=1):
-    epsilons = bk.array(epsilons) + 0j
+    epsilons = bk.array(epsilons, dtype=COMPLEX) + 0j
     nthres = len(epsilons)
     npts = nthres
     if nthres == 2:
         return simp(x, epsilons[0], epsilons[1], p)
-    pts = bk.linspace(0, 1, npts)
+    pts = bk.linspace(0, 1, npts, dtype=FLOAT)
 
     def pol(coefs, x):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
-- 
2.43.0


From e23baa8b987185460f5108a3ab93d085f7cc8da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 27/28] fix: arrays built from tensors keep their gradients
 with torch

---
 nannos/__init__.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index ac4764a..0855116 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -283,11 +283,31 @@ elif "_TORCH" in globals():
 
         backend = torch
 
+        def _leaves(a):
+            if isinstance(a, (list, tuple)):
+                return [leaf for item in a for leaf in _leaves(item)]
+            return [a]
+
+        def _stack(a, dtype):
+            if isinstance(a, (list, tuple)):
+                return backend.stack([_stack(item, dtype) for item in a])
+            return backend.as_tensor(a, dtype=dtype, device=torch.device(DEVICE))
+
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
                 return a.to(torch.device(DEVICE))
-            else:
-                return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
+            leaves = _leaves(a)
+            if any(isinstance(leaf, backend.Tensor) for leaf in leaves):
+                # backend.tensor would drop the gradients of the elements
+                dtype = kwargs.get("dtype")
+                if dtype is None:
+                    dtype = backend.as_tensor(leaves[0]).dtype
+                    for leaf in leaves[1:]:
+                        dtype = backend.promote_types(
+                            dtype, backend.as_tensor(leaf).dtype
+                        )
+                return _stack(a, dtype)
+            return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
         backend.array = _array
 
-- 
2.43.0


From 6e66e8b644cb8e91cb80bf51ee17fb598cd2fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:44 +0000
Subject: [PATCH 28/28] fix: orders given by the user are checked against the
 grid whatever their sign

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 63791b6..c8a9f4c 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
                 idict[i1] = {i2: j}
         self.harmidx_dict = idict
         # Check if nh and resolution satisfy Nyquist criteria
-        maxN = bk.max(self.harmonics)
+        maxN = bk.max(bk.abs(self.harmonics))
         if self.lattice.discretization[0] <= 2 * maxN or (
             self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D
         ):
-- 
2.43.0

