From e62b5f4424c562cb9157107402e4b0c716bcc53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 01/28] fix: slerp of nearly opposite quaternions no longer
 passes through zero

---
 rainbow/math/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 610d029..02a1af9 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -319,7 +319,7 @@ def slerp(a, b, t):
     small_angle_threshold = 0.9999999
 
     if dot > small_angle_threshold:
-        return unit(lerp(a, b, t))
+        return unit(lerp(-a if flip else a, b, t))
 
     omega = acos(dot)
     sin_omega = sin(omega)
-- 
2.43.0


From ebc9255315f0f8735d10ba1effb9be6555963483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 02/28] fix: logarithm of the identity quaternion is the zero
 vector

---
 rainbow/math/expmap.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 50442c5..8243cd7 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -1,7 +1,7 @@
 import rainbow.math.matrix3 as M3
 import rainbow.math.vector3 as V3
 import rainbow.math.quaternion as Q
-from math import cos, sin, pi, acos, fmod, fabs
+from math import cos, sin, pi, atan2, fmod, fabs
 from numpy import tan
 
 
@@ -90,14 +90,15 @@ def log(q):
         #
         # Let
         #
-        #    t = theta/2  = acos(s)
-        #    n = w / sin(t)
+        #    t = theta/2  = atan2(|w|, s)
+        #    n = w / sin(t),  sin(t) = |w|
         #    v = 2*t*n = 2*t*w / sin(t)
         #
-        # If q is the identity quaternion the log(q) should map to zero vector. Recall that
-        # identity is given by q = [1 0 0 0] the above works for this.
-        t = acos(q[0])
-        s = sin(t)
+        # The identity has w = 0 and no axis, so it is dealt with before dividing by sin(t) = |w|.
+        s = V3.norm(V3.make(q[1], q[2], q[3]))
+        if s == 0.0:
+            return V3.zero()
+        t = atan2(s, q[0])
         f = 2 * t / s
         return V3.make(f * q[1], f * q[2], f * q[3])
     return V3.zero()
-- 
2.43.0


From 057574a623585cf9f30b65cc9b4bfa0d3ec5a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 03/28] fix: dRdv_i uses the quaternion branch its derivative
 belongs to

---
 rainbow/math/expmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 8243cd7..85c2fff 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -226,7 +226,8 @@ def dRdv_i(v, i):
     :param i:
     :return:
     """
-    q = exp(v)
+    # dQdv_i differentiates exp without reparameterization, q must be on the same branch (exp(v) may be -q).
+    q = exp(v, reparm=False)
     dQdvi = dQdv_i(v, i)
     dRdvi = __dRdv_i(q, dQdvi)
     return dRdvi
\ No newline at end of file
-- 
2.43.0


From e0fc9e8f567c1840dec14aa3105637d849dc84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 04/28] fix: ortonormalize no longer overwrites its argument

---
 rainbow/math/matrix3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/matrix3.py b/rainbow/math/matrix3.py
index 6e09ba1..b07caa4 100644
--- a/rainbow/math/matrix3.py
+++ b/rainbow/math/matrix3.py
@@ -53,8 +53,8 @@ def star(v):
 
 
 def ortonormalize(A):
-    row0 = A[0, :]
-    row1 = A[1, :]
+    row0 = np.array(A[0, :])
+    row1 = np.array(A[1, :])
     l0 = np.linalg.norm(row0)
     if l0 > 0.0:
         row0 /= l0
-- 
2.43.0


From 9ed2a39c0eb5fc96aaac391c87598d18809cbf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 05/28] fix: direction_of_most_variance returns the
 eigenvector, not a row of the eigenvector matrix

---
 rainbow/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 8b2c133..1d66942 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -45,4 +45,4 @@ def direction_of_most_variance(P):
     """
     _, values, vectors = PCA(P)            # Returns eigenvalue not sorted
     largest_eigenv_idx = np.argmax(values)
-    return vectors[largest_eigenv_idx]
+    return vectors[:, largest_eigenv_idx]  # eigenvectors are stored as columns
-- 
2.43.0


From f2781af45211ca1a8af2a0c99e4df2dfb52c9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 06/28] fix: PCA of flat point sets no longer returns complex
 directions

---
 rainbow/math/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 1d66942..af81a8c 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -34,6 +34,9 @@ def PCA(P):
     C = P - mean
     V = np.cov(C.T)
     values, vectors = np.linalg.eig(V)
+    if np.iscomplexobj(values):
+        # V is symmetric, a complex pair is rounding noise of eig on (nearly) repeated eigenvalues (flat point sets).
+        values, vectors = np.linalg.eigh(V)
     return mean, values, vectors
 
 
-- 
2.43.0


From 5f94a9a65fdb391a59dd3a1c382f7d2e9e408788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 07/28] fix: to_str keeps the minus sign of the leading term

---
 rainbow/math/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/polynomial.py b/rainbow/math/polynomial.py
index 7a096fd..6158188 100644
--- a/rainbow/math/polynomial.py
+++ b/rainbow/math/polynomial.py
@@ -314,8 +314,8 @@ def to_str(P: Poly) -> str:
         if len(polynomial) > 0:
             if len(term) > 0:
                 polynomial += " " + sign + " " + term
-        else:
-            polynomial = term
+        elif len(term) > 0:
+            polynomial = "-" + term if sign == "-" else term
     return polynomial
 
 
-- 
2.43.0


From 935d9b0a7fe6a4069e76e8ace3796b130ca47534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 08/28] fix: grid gradient measured local cell coordinates in
 units of the grid corner instead of the spacing

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From 2ad07f90b64e26747b822719466c4b9abb633418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 09/28] fix: spatial hash grid reported objects of earlier time
 stamps (and the inserted object itself)

---
 rainbow/geometry/spatial_hashing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..227b5a3 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,8 +189,9 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
+            # The cell may just have been cleared, report what else lives in it at this time stamp
+            overlaps = self.hash_tbale[hv].object_list[:-1]
         return overlaps
     
     @classmethod
-- 
2.43.0


From fb023fcd8e1779c52c9d143455d02cf3d4fbf707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 10/28] fix: interior tetrahedron samples selected face points
 instead of interior points

---
 rainbow/geometry/tetrahedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/tetrahedron.py b/rainbow/geometry/tetrahedron.py
index 6848b86..cfb8718 100644
--- a/rainbow/geometry/tetrahedron.py
+++ b/rainbow/geometry/tetrahedron.py
@@ -240,4 +240,4 @@ def generate_interior_sample_points(N):
              iso-parametric tetrahedron.
     """
     S = generate_sample_points(N)
-    return S[np.count_nonzero(S, axis=1) == 3]
+    return S[np.count_nonzero(S, axis=1) == 4]
-- 
2.43.0


From aabd6215b9680a8d3cddb7e468af557f1bceb46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:27 +0000
Subject: [PATCH 11/28] fix: loop subdivision of tetrahedra inverted the child
 at the first corner

---
 rainbow/geometry/volume_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/volume_mesh.py b/rainbow/geometry/volume_mesh.py
index 3ba8ee0..a8f4817 100644
--- a/rainbow/geometry/volume_mesh.py
+++ b/rainbow/geometry/volume_mesh.py
@@ -210,7 +210,7 @@ def create_loop_subdivision(V, T):
         jm, pjm = create_midpoint(j, m, pj, pm, lut, offset)
         km, pkm = create_midpoint(k, m, pk, pm, lut, offset)
         T[e] = [im, jm, km, m]
-        T[last] = [ij, ik, im, i]
+        T[last] = [ij, im, ik, i]
         T[last + 1] = [ij, jk, jm, j]
         T[last + 2] = [ik, km, jk, k]
         T[last + 3] = [ik, im, ij, jm]
-- 
2.43.0


From de2e058b6e15ef238d497bfe0257af10a3e855fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 12/28] fix: principal axes of bodies with repeated principal
 moments are orthogonal

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..078f5ce 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,7 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    d, R = np.linalg.eigh(A)  # A is symmetric, its eigenvectors must be orthogonal also for repeated eigenvalues
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From 30c8cf86b092da21be995115404e1aa2869b6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 13/28] fix: hinge stabilisation term pulls the joint together
 instead of apart

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..d26f1ea 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -208,9 +208,11 @@ class Hinges(Problem):
 
             n_c = Q.rotate(hinge.child.q, hinge.axis_c)
 
-            u = V3.cross(n_p, n_c)
+            # The joint rows measure the parent motion relative to the child, so the error terms must
+            # have the same orientation in order for J u + g = 0 to reduce the drift error.
+            u = V3.cross(n_c, n_p)
 
-            g[offset:offset + 3] = (r_c - r_p)
+            g[offset:offset + 3] = (r_p - r_c)
             g[offset + 3] = t_p.dot(u)
             g[offset + 4] = b_p.dot(u)
         rate = engine.params.gap_reduction / dt
-- 
2.43.0


From b02dd0b30d3b8e5f8bac7fa0f80f13c67aa7a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:23 +0000
Subject: [PATCH 14/28] fix: create_surfaces_interaction keeps its own copy of
 the friction coefficients

---
 rainbow/simulators/prox_rigid_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 53c3bfb..801a239 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -669,7 +669,7 @@ def create_surfaces_interaction(engine, A: str, B: str, epsilon: float, mu) -> N
     key = tuple(tmp)
     behaviour = SurfacesInteraction()
     behaviour.epsilon = epsilon
-    behaviour.mu = mu
+    behaviour.mu = np.copy(mu)
     engine.surfaces_interactions.storage[key] = behaviour
 
 
-- 
2.43.0


From 7d2ed4057241f9a0c8acd12545d32ea629e2648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:23 +0000
Subject: [PATCH 15/28] fix: coloured Gauss-Seidel sweep sees the impulses of
 all earlier colour groups

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..d530ed7 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -105,10 +105,8 @@ class ParallelGaussSeidelSolver(SolverInterface):
         w0 = self.WJT.dot(self.x)
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
-            w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            # Contacts of groups that have not been swept yet have a zero change.
+            w = w0 + np.sum(delta_ws, axis=0)
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From 7cc3552b4c412bdad3f0fe8e19fa33112c6a67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 16/28] fix: stable Neo-Hookean energy uses the natural
 logarithm its stress is the gradient of

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..7bf1510 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From 44f7b9e7286e08a32f69ea850817732200def0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 17/28] fix: corotational material decomposes the single
 deformation gradient it is given

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 7bf1510..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From de9a71c2cbb28e7c3187cd605220a5d2ef1c6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 18/28] fix: traction forces add up to area times load (area
 element of the reference triangle)

---
 rainbow/simulators/prox_soft_bodies/solver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..a0617f0 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -339,17 +339,19 @@ class Native:
             #                      I_3x3    I_3x3 2*I_3x3; ]
             # --- The spatial load force
             #
-            #     lf(f) = A(f) * L * [li; lj; lk]
+            #     lf(f) = 2 * A(f) * L * [li; lj; lk]
+            #
+            #   as the area element is 2 A(f) dx dy,
             #
             #   where load = (li,lj,lk) is the applied surface traction.
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (A / 12) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (A / 12) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (A / 12) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From 4aa1e146495b71b0daff516faa60d7c46cc45350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:20 +0000
Subject: [PATCH 19/28] fix: soft bodies of fixed type do not move

---
 rainbow/simulators/prox_soft_bodies/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index a0617f0..4951408 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1023,6 +1023,8 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
+        if body.is_fixed:
+            u[body.offset : body.offset + len(body.x)] = 0.0
         if len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices could be precomputed.
-- 
2.43.0


From 302aae2e062edc5ac4f1ef5e09910cefad80487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:20 +0000
Subject: [PATCH 20/28] fix: soft body post-stabilization uses four rows per
 contact and leaves held nodes in place

---
 rainbow/simulators/prox_soft_bodies/solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 4951408..4e9c8c8 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -965,11 +965,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -986,9 +986,12 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
+    # Fixed bodies and nodes with prescribed positions do not take part in the correction
+    apply_boundary_conditions_on_velocities(delta_x, engine)
+
     x = get_position_vector(engine)
     x += delta_x
     set_position_vector(x, engine)
-- 
2.43.0


From 4886b2bde79755203ffbb9fecb358c99f796fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:09 +0000
Subject: [PATCH 21/28] fix: soft contact normals follow the deformation of the
 tetrahedron

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..9fd9f2f 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -263,7 +263,8 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    # The rows of D and D0 are edge vectors, so the deformation gradient is F = D^T D0^{-T} and normals map by F^{-T}
+    n = np.linalg.solve(D, D0.dot(n))
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From b897b64cfad68e0d4b8b0a7888f40b22c8dfd395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:09 +0000
Subject: [PATCH 22/28] fix: triangles share a vertex only if all three
 coordinates agree

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 9fd9f2f..37a6fa7 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -50,7 +50,7 @@ def _is_share_vertex(tri1, tri2):
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
     """
-    return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
+    return any(np.array_equal(a, b) for a in tri1 for b in tri2)
 
 
 def _triangle_intersection(tri1, tri2):
-- 
2.43.0


From ae4a5e1fd6eeafc825dc4c013b096eef3fd23d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:27 +0000
Subject: [PATCH 23/28] fix: soft body material pairs without an interaction
 use the default one

---
 rainbow/simulators/prox_soft_bodies/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/types.py b/rainbow/simulators/prox_soft_bodies/types.py
index 39cad06..241080f 100644
--- a/rainbow/simulators/prox_soft_bodies/types.py
+++ b/rainbow/simulators/prox_soft_bodies/types.py
@@ -30,12 +30,12 @@ class SurfacesInteractionLibrary:
     def get_interaction(self, A, B):
         """
         This method retrieves the surface interaction description
-        between the given material names.
+        between the given material names, the default interaction if none has been described.
         """
         key = (A, B) if A < B else (B, A)
         if key in self.storage:
             return self.storage[key]
-        return None
+        return self.storage[("default", "default")]
 
     def exist_interaction(self, A, B):
         """
-- 
2.43.0


From 9b978a79fa84dba9281b2a0baec7a6c6313d400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:27 +0000
Subject: [PATCH 24/28] fix: self collision test of two triangles intersects
 edges with triangles

---
 .../prox_soft_bodies/collision_detection.py   | 69 +++++++++++--------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 37a6fa7..e484005 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -53,52 +53,61 @@ def _is_share_vertex(tri1, tri2):
     return any(np.array_equal(a, b) for a in tri1 for b in tri2)
 
 
-def _triangle_intersection(tri1, tri2):
-    """ Test if two triangles of a same body intersect
-        To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
-        which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
-        
+def _edge_intersects_triangle(p, q, tri):
+    """ Test if the line segment from p to q intersects a triangle (the Moller-Trumbore test limited to a segment,
+        see https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm).
+
     Args:
-        tri1 (ArrayLike): coordinates of the first triangle
-        tri2 (ArrayLike): coordinates of the second triangle
+        p (ArrayLike): coordinates of the first end point of the segment
+        q (ArrayLike): coordinates of the second end point of the segment
+        tri (ArrayLike): coordinates of the triangle
 
     Returns:
-        bool: True if the two triangles intersect, False otherwise
+        bool: True if the segment intersects the triangle, False otherwise (or if it is parallel to the triangle)
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
+    v1, v2, v3 = tri
+    d = q - p
     e1 = v2 - v1
     e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
+    h = np.cross(d, e2)
+    a = np.dot(e1, h)
 
-    # Check if the two triangles are parallel or not
+    # Check if the segment and the triangle are parallel or not
     if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
+        return False
 
-    # Check the intersection point is inside the triangle(tri1)
-    f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
+    f = 1.0 / a
+    s = p - v1
+    u = f * np.dot(s, h)
     if u < 0.0 or u > 1.0:
         return False
 
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
+    r = np.cross(s, e1)
+    v = f * np.dot(d, r)
     if v < 0.0 or u + v > 1.0:
         return False
 
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    # Check the intersection point is between the end points of the segment
+    t = f * np.dot(e2, r)
+    return t >= 0.0 and t <= 1.0
+
 
+def _triangle_intersection(tri1, tri2):
+    """ Test if two triangles of a same body intersect
+        Two triangles that are not in the same plane intersect if and only if an edge of one of them
+        intersects the other one.
+        
+    Args:
+        tri1 (ArrayLike): coordinates of the first triangle
+        tri2 (ArrayLike): coordinates of the second triangle
+
+    Returns:
+        bool: True if the two triangles intersect, False otherwise
+    """
+    for i in range(3):
+        j = (i + 1) % 3
+        if _edge_intersects_triangle(tri1[i], tri1[j], tri2) or _edge_intersects_triangle(tri2[i], tri2[j], tri1):
+            return True
     return False
 
 
-- 
2.43.0


From 5201fdda0d542d6c4832da9e0709775b7ad78f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:31 +0000
Subject: [PATCH 25/28] fix: inverse kinematics Hessian mixed up the axes and
 columns of its second-order terms

---
 rainbow/simulators/inverse_kinematics/api.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..b5a248f 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -339,11 +339,20 @@ def compute_hessian(chains, skeleton, J):
                 vc = np.dot(V3.cross(v, J_c), r)
                 wc = np.dot(V3.cross(w, J_c), r)
 
-                dH = np.array(
-                    [[ua, va, wa],
-                     [ub, vb, wb],
-                     [uc, vc, wc]]
-                )
+                # Entry (i,j) is the i'th axis of bone h crossed with the j'th Jacobian column of bone k. Within one
+                # bone the axis must be the one applied first, and the block is symmetric.
+                if h != k:
+                    dH = np.array(
+                        [[ua, ub, uc],
+                         [va, vb, vc],
+                         [wa, wb, wc]]
+                    )
+                else:
+                    dH = np.array(
+                        [[ua, ub, uc],
+                         [ub, vb, vc],
+                         [uc, vc, wc]]
+                    )
 
                 H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
                 if h != k:
-- 
2.43.0


From 68f52945ec33d0fe2d4d47f77b6e514141afc390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:31 +0000
Subject: [PATCH 26/28] fix: finite-difference derivatives left the skeleton
 posed at a perturbed angle

---
 rainbow/simulators/inverse_kinematics/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index b5a248f..5522070 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -472,6 +472,7 @@ def __numerical_differentiation_second_derivative(chains, skeleton, i, j, h):
         update_skeleton(skeleton)
         f_imh = compute_objective(chains, skeleton)
         set_angle(i, theta_i, skeleton)
+        update_skeleton(skeleton)
         return (f_iph - 2 * f_i + f_imh) / (h * h)
     else:
         theta_i = get_angle(i, skeleton)
@@ -494,6 +495,7 @@ def __numerical_differentiation_second_derivative(chains, skeleton, i, j, h):
         f_imh_jmh = compute_objective(chains, skeleton)
         set_angle(i, theta_i, skeleton)
         set_angle(j, theta_j, skeleton)
+        update_skeleton(skeleton)
         return (f_iph_jph - f_iph_jmh - f_imh_jph + f_imh_jmh) / (4 * h * h)
 
 
@@ -517,6 +519,7 @@ def __numerical_differentiation_first_derivative(chains, skeleton, i, h):
     update_skeleton(skeleton)
     f_imh = compute_objective(chains, skeleton)
     set_angle(i, theta_i, skeleton)
+    update_skeleton(skeleton)
     return (f_iph - f_imh) / (2 * h)
 
 
-- 
2.43.0


From 6dbdcf0dea429a1a08bc43d5e605821323cd5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 27/28] fix: accept leading zeros in fractions and exponents of
 textual numbers

---
 rainbow/util/parse_string.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rainbow/util/parse_string.py b/rainbow/util/parse_string.py
index da2b387..a831ee1 100644
--- a/rainbow/util/parse_string.py
+++ b/rainbow/util/parse_string.py
@@ -8,11 +8,13 @@ import pyparsing as pp
 '''
 
 Integer          = pp.Regex("([1-9]\d*|0)")
-Float            = Integer + "." + Integer
+Digits           = pp.Regex("[0-9]+")
+Float            = Integer + "." + Digits
 Number_unsigned  = (Float | Integer)
 Number_signed    = ("-" + Number_unsigned | Number_unsigned)
-Number_pos_scientific  = Number_signed + "e" + "+" + Number_unsigned
-Number_neg_scientific  = Number_signed + "e" + "-" + Number_unsigned
+Exponent         = (Digits + "." + Digits | Digits)
+Number_pos_scientific  = Number_signed + "e" + "+" + Exponent
+Number_neg_scientific  = Number_signed + "e" + "-" + Exponent
 Number_scientific      = (Number_pos_scientific | Number_neg_scientific)
 Number                 = (Number_scientific | Number_signed)
 Letters  = pp.Word(pp.alphas)
-- 
2.43.0


From 5d1be149211cd6931c6aec3bf97ea72c1dd09e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 28/28] fix: reject components that are not numbers when
 reading textual vectors and quaternions

---
 rainbow/math/quaternion.py | 3 ++-
 rainbow/math/vector3.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 02a1af9..2e53098 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -58,7 +58,8 @@ def from_string(value):
         axis = V3.from_string(axis_str)
         return Ru(radians, axis)
 
-    string_2_array =  np.fromstring(value_lower.strip("[]"), dtype=np.float64, sep=",")
+    components = value_lower.strip().strip("[]").split(",")
+    string_2_array = np.array([float(component) for component in components], dtype=np.float64)
 
     assert len(string_2_array) >= 4
 
diff --git a/rainbow/math/vector3.py b/rainbow/math/vector3.py
index bc4718c..6f9c28d 100644
--- a/rainbow/math/vector3.py
+++ b/rainbow/math/vector3.py
@@ -53,7 +53,8 @@ def from_string(value):
         (lower_str, upper_str) = value_lower.strip("rand:").split(":")
         return rand(float(lower_str), float(upper_str))
     
-    string_2_array =  np.fromstring(value_lower.strip("[]"), dtype=np.float64, sep=",")
+    components = value_lower.strip().strip("[]").split(",")
+    string_2_array = np.array([float(component) for component in components], dtype=np.float64)
 
     assert len(string_2_array) >= 3
 
-- 
2.43.0

