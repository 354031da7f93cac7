From bb691193b8e3080551038c5861582d9f620f3999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 01/11] fix: inner vertices of a fixed side do not belong to
 the Neumann boundary

---
 src/tvemoves_rufbad/domain.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..89ea39c 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -510,8 +510,6 @@ class RectangleDomain(Domain):
         )
         boundary = Boundary(boundary_vertices, boundary_edges)
 
-        # 1 / 0 => Neumann, 0 / -1 => Dirichlet
-        boundary_vertices_tags = {i: 1 for i in boundary_vertices}
         dirichlet_edges = set()
         neumann_edges = set(boundary_edges)
 
@@ -523,32 +521,21 @@ class RectangleDomain(Domain):
             for fix in fixes:
                 match fix:
                     case "lower":
-                        for i in lower_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(lower_boundary_edges)
                         neumann_edges.difference_update(lower_boundary_edges)
                     case "right":
-                        for i in right_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(right_boundary_edges)
                         neumann_edges.difference_update(right_boundary_edges)
                     case "upper":
-                        for i in upper_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(upper_boundary_edges)
                         neumann_edges.difference_update(upper_boundary_edges)
                     case "left":
-                        for i in left_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(left_boundary_edges)
                         neumann_edges.difference_update(left_boundary_edges)
-        dirichlet_vertices = []
-        neumann_vertices = []
-        for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
-                neumann_vertices.append(i)
-            if tag <= 0:
-                dirichlet_vertices.append(i)
+        dirichlet_edges_vertices = {i for edge in dirichlet_edges for i in edge}
+        neumann_edges_vertices = {i for edge in neumann_edges for i in edge}
+        dirichlet_vertices = [i for i in boundary_vertices if i in dirichlet_edges_vertices]
+        neumann_vertices = [i for i in boundary_vertices if i in neumann_edges_vertices]
         dirichlet_boundary = Boundary(dirichlet_vertices, list(dirichlet_edges))
         neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
 
-- 
2.43.0


From c41974b821f6503cbefe72ea3e9b4161ab24fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 02/11] fix: reject unknown fix options instead of ignoring
 them

---
 src/tvemoves_rufbad/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 89ea39c..ca7eee6 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -532,6 +532,8 @@ class RectangleDomain(Domain):
                     case "left":
                         dirichlet_edges.update(left_boundary_edges)
                         neumann_edges.difference_update(left_boundary_edges)
+                    case _:
+                        raise ValueError(f"unknown side {fix!r} provided as fix option")
         dirichlet_edges_vertices = {i for edge in dirichlet_edges for i in edge}
         neumann_edges_vertices = {i for edge in neumann_edges for i in edge}
         dirichlet_vertices = [i for i in boundary_vertices if i in dirichlet_edges_vertices]
-- 
2.43.0


From d736d5852541039f4bf2d185f91f2197e4b45882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 03/11] fix: check every index of Tensor3D.__getitem__ against
 its own axis

---
 src/tvemoves_rufbad/tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c0d88ff..a8309e6 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -386,9 +386,9 @@ class Tensor3D:
         i, j, k = index
         if i < 0 or i >= self.shape[0]:
             raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
-        if i < 0 or i >= self.shape[0]:
+        if j < 0 or j >= self.shape[1]:
             raise IndexError(f"index {j} is out of bounds for axis 1 with size {self.shape[1]}")
-        if i < 0 or i >= self.shape[0]:
+        if k < 0 or k >= self.shape[2]:
             raise IndexError(f"index {k} is out of bounds for axis 2 with size {self.shape[2]}")
         return self.data[i][j][k]
 
-- 
2.43.0


From 43bf4e186a16dd884fbf390a6e5cce9e3d361905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 04/11] fix: reject vectors of different sizes in Vector.dot
 instead of truncating

---
 src/tvemoves_rufbad/tensors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index a8309e6..d4ffd51 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -70,6 +70,10 @@ class Vector:
 
     def dot(self, other: Vector):
         """Compute the scalar product with another vector."""
+        if self.size != other.size:
+            raise ValueError(
+                f"scalar product of vectors of sizes {self.size} and {other.size} is not defined"
+            )
         return sum(x * y for x, y in zip(self.data, other.data))
 
     def map(self, f: Callable) -> Vector:
-- 
2.43.0


From 604d47d8870ea55b6a07f6290b362f23e41285bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 05/11] fix: permute the coordinates together with the vertices
 of a cyclic triangle

---
 src/tvemoves_rufbad/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index ca7eee6..26f6540 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -344,16 +344,18 @@ class RefinedGrid(Grid):
     def to_coarse_barycentric_point(self, fine_point: BarycentricPoint) -> BarycentricPoint:
         """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
         fine_triangle = fine_point.triangle
+        p = fine_point.coordinates
         i1, i2, i3 = fine_triangle
         if (i1, i2, i3) not in self.triangles:
             if (i2, i3, i1) in self.triangles:
                 fine_triangle = (i2, i3, i1)
+                p = BarycentricCoordinates(p.l2, p.l3)
             elif (i3, i1, i2) in self.triangles:
                 fine_triangle = (i3, i1, i2)
+                p = BarycentricCoordinates(p.l3, p.l1)
             else:
                 raise ValueError("triangle does not appear in the grid")
         coarse_triangle = self._coarse_triangle[fine_triangle]
-        p = fine_point.coordinates
         q1, q2, q3 = self._coarse_barycentric_coordinates[fine_triangle]
         coarse_barycentric_coordinates = BarycentricCoordinates(
             p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
-- 
2.43.0


From 2ff394393123dafa27a9ec5c49a3a03fe9e7e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 06/11] fix: reject fps = 0

---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..6cfe32c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From d8d505012c8f09f305727c9cb060751711f71962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 07/11] fix: Grid.plot(None) creates its axis with the required
 limits

---
 src/tvemoves_rufbad/domain.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 26f6540..64d9939 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -150,13 +150,12 @@ class Grid(ABC):
 
     def plot(self, ax):
         """Returns matplotlib plot of the grid."""
+        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
+        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         if ax is None:
-            _, ax = fig_axis()
+            _, ax = fig_axis(new_xlim, new_ylim)
 
-        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
         _adjust_xlim(ax, new_xlim)
-
-        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         _adjust_ylim(ax, new_ylim)
 
         self._plot_vertices(ax)
-- 
2.43.0


From ac601ba4d8066567b38e1758f3c9b163581a4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 08/11] fix: raise if a solve did not terminate optimally

---
 src/tvemoves_rufbad/mechanical_step.py | 4 ++--
 src/tvemoves_rufbad/thermal_step.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index b65c5eb..2fab50a 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -193,7 +193,7 @@ class _MechanicalStep(AbstractMechanicalStep):
         self._grid = grid
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as Nx2 numpy array, where N is the number of vertices."""
@@ -415,7 +415,7 @@ class _MechanicalStepRegularized(AbstractMechanicalStep):
         )
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as a Nx2x6 numpy array, where N is the number of
diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 523e678..5d36952 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -368,7 +368,7 @@ class _ThermalStep(AbstractThermalStep):
         self._external_temperature = external_temperature
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as Nx2 numpy array, where N is the number of vertices."""
@@ -466,7 +466,7 @@ class _ThermalStepRegularized(AbstractThermalStep):
         )
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as a Nx2x6 numpy array, where N is the number of
-- 
2.43.0


From 06e63552164c81b1e2f25bd6859aa0a97db856fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 09/11] fix: make the triangle orientation assertions relative
 to the triangle size

---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 64d9939..f89e50c 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -686,7 +686,7 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    eps = 1e-7 * (p3 - p1).norm()
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0


From d1d7c9fe2f0b67085b41d61f205d069c0c706119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 10/11] fix: give refined diagonal edges the orientation under
 which they are recorded

---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index f89e50c..78a9d63 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -811,7 +811,7 @@ def _refine_equilateral_triangle(
             intermediate_grid.append_edge(
                 assure_orientation(
                     diagonal_edge_correct,
-                    (triangle_vertices[(k, l)], triangle_vertices[(k, l + 1)]),
+                    (triangle_vertices[(k, l + 1)], triangle_vertices[(k, l)]),
                 )
             )
 
-- 
2.43.0


From 0f2a94f71fcca23ecc811b1feb1d52bcf805bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 11/11] fix: order of fixed edges depended on the hash seed

RectangleDomain.grid iterated over a set of strings, so the order of the Dirichlet edges (and with it the
summation order of boundary integrals) changed from process to process.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 78a9d63..9e129b8 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -518,7 +518,7 @@ class RectangleDomain(Domain):
             if not isinstance(self.fix, list):
                 fixes = [self.fix]
             else:
-                fixes = list(set(self.fix))
+                fixes = list(dict.fromkeys(self.fix))
             for fix in fixes:
                 match fix:
                     case "lower":
-- 
2.43.0

