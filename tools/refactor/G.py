EDITS=[
("domain","from copy import deepcopy\n","from copy import deepcopy\nfrom collections import Counter\nfrom functools import partial\n"),
("domain",'''        self._mean_edge_length = None
        if self.edges:
            self._mean_edge_length = sum(
                (self.points[i1] - self.points[i2]).norm() for (i1, i2) in self.edges
            ) / len(self.edges)
''','''        self._mean_edge_length = self._average_edge_length()

    def _edge_length(self, edge: Edge):
        start, end = (self.points[i] for i in edge)
        return (start - end).norm()

    def _average_edge_length(self):
        lengths = [self._edge_length(edge) for edge in self.edges]
        return sum(lengths) / len(lengths) if lengths else None
'''),
("domain",'''            num_edges_old = len(self.edges)
            new_edge_length = (self.points[edge[0]] - self.points[edge[1]]).norm()
            if self._mean_edge_length is None:
                self._mean_edge_length = new_edge_length
            else:
                self._mean_edge_length = self._mean_edge_length * num_edges_old / (
                    num_edges_old + 1
                ) + new_edge_length / (num_edges_old + 1)
''','''            old_total = (self._mean_edge_length or 0) * len(self.edges)
            self._mean_edge_length = (old_total + self._edge_length(edge)) / (len(self.edges) + 1)
'''),
("domain",'''        if any(
            not self._contains_triangle(
                (other_to_self_vertex[i1], other_to_self_vertex[i2], other_to_self_vertex[i3])
            )
            for (i1, i2, i3) in other.triangles
        ):
            return False

        if (
            not _boundaries_coincide(self.boundary, other.boundary, other_to_self_vertex)
            or not _boundaries_coincide(
                self.dirichlet_boundary, other.dirichlet_boundary, other_to_self_vertex
            )
            or not _boundaries_coincide(
                self.neumann_boundary, other.neumann_boundary, other_to_self_vertex
            )
        ):
            return False

        return True
''','''        renumbered = (tuple(map(other_to_self_vertex.__getitem__, t)) for t in other.triangles)
        if not all(map(self._contains_triangle, renumbered)):
            return False

        parts = ("boundary", "dirichlet_boundary", "neumann_boundary")
        return all(
            _boundaries_coincide(getattr(self, part), getattr(other, part), other_to_self_vertex)
            for part in parts
        )
'''),
]
FUNCS=[
("domain","Grid.point_to_vertex",'''    def point_to_vertex(self, point: Vector) -> Vertex | None:
        """Return vertex id of the point or None if point is not in the grid."""
        coincides = partial(self._points_coincide, point)
        for vertex, grid_point in enumerate(self.points):
            if coincides(grid_point):
                return vertex
        return None
'''),
("domain","Grid.triangle_vertices",'''    def triangle_vertices(self, triangle: Triangle) -> TriangleVertices:
        """Transform triangle indices into points."""
        if not any(triangle == listed for listed in self.triangles):
            raise ValueError("Provided triangle is not in the list of triangles")
        return tuple(map(self.points.__getitem__, triangle))
'''),
("domain","Grid.edge_vertices",'''    def edge_vertices(self, edge: Edge) -> EdgeVertices:
        """Transform triangle indices into points."""
        try:
            self.edges.index(edge)
        except ValueError as error:
            raise ValueError("Provided edge is not in the list of edges") from error
        return tuple(self.points[i] for i in edge)
'''),
("domain","Grid._contains_triangle",'''    def _contains_triangle(self, triangle: Triangle):
        # Only cyclic permutations allowed.
        rotations = (triangle[k:] + triangle[:k] for k in range(3))
        return any(rotation in self.triangles for rotation in rotations)
'''),
("domain","Grid._contains_edge",'''    def _contains_edge(self, edge: Edge):
        return not {edge, edge[::-1]}.isdisjoint(self.edges)
'''),
("domain","Grid._points_coincide",'''    def _points_coincide(self, p1: Vector, p2: Vector) -> bool:
        if self._mean_edge_length is None:
            tolerance = 1e-15
        else:
            tolerance = 1e-7 * self._mean_edge_length
        return (p1 - p2).normsqr() < tolerance**2
'''),
("domain","_boundaries_coincide",'''def _boundaries_coincide(
    boundary: Boundary, other_boundary: Boundary, other_to_self_vertex: Dict[Vertex, Vertex]
) -> bool:
    rename = other_to_self_vertex.get
    if Counter(boundary.vertices) != Counter(map(rename, other_boundary.vertices)):
        return False

    own_edges = {frozenset(edge) for edge in boundary.edges}
    other_edges = [frozenset(rename(i) for i in edge) for edge in other_boundary.edges]
    return len(boundary.edges) == len(other_edges) and own_edges.issuperset(other_edges)
'''),
]
