GRID = """
  from tvemoves_rufbad.domain import Grid, Boundary, RectangleDomain
  from tvemoves_rufbad.tensors import Vector

  P = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)]
  T = [(0, 1, 4), (0, 4, 3), (1, 2, 5), (1, 5, 4)]
  E = [(0, 1), (1, 4), (4, 0), (4, 3), (3, 0), (1, 2), (2, 5), (5, 1), (5, 4)]
  OUT = ([0, 1, 2, 5, 4, 3], [(0, 1), (1, 2), (2, 5), (5, 4), (4, 3), (3, 0)])
  FIX = ([3, 0], [(3, 0)])
  FREE = ([0, 1, 2, 5, 4, 3], [(0, 1), (1, 2), (2, 5), (5, 4), (4, 3)])

  def grid(points=P, edges=E, tris=T, out=OUT, fix=FIX, free=FREE, scale=1.0):
      return Grid(list(range(len(points))), list(edges), list(tris), *[Boundary(list(v), list(e)) for v, e in (out, fix, free)],
                  [Vector([scale * x, scale * y]) for x, y in points])
"""
BUGS = [
 dict(id="C44-orientation", property="C44",
  edits={"domain.py": [("""        i1, i2, i3 = triangle
        return (
            (i1, i2, i3) in self.triangles
            or (i2, i3, i1) in self.triangles
            or (i3, i1, i2) in self.triangles
        )
""", """        return any(set(t) == set(triangle) for t in self.triangles)
""")]},
  needs="two grids that differ in the orientation of one triangle",
  breaks="a grid with a flipped triangle compares equal",
  demo=GRID + """
  assert grid() == grid(tris=[T[0][1:] + T[0][:1]] + T[1:])
  assert grid() != grid(tris=[(0, 4, 1)] + T[1:])
  """),
 dict(id="C44-absolute", property="C44",
  edits={"domain.py": [("        eps = self._mean_edge_length / 1e7 if self._mean_edge_length is not None else 1e-15\n",
                        "        eps = min(self._mean_edge_length, 1) / 1e7 if self._mean_edge_length is not None else 1e-15\n")]},
  needs="a mesh that is large compared with 1, with positions that differ by rounding",
  breaks="large grids whose positions differ by rounding compare unequal",
  demo=GRID + """
  a, b = grid(scale=1e12), grid(points=[(x + 1e-10, y) for x, y in P], scale=1e12)
  assert a == b
  """),
 dict(id="C44-free-part", property="C44",
  edits={"domain.py": [("""            or not _boundaries_coincide(
                self.neumann_boundary, other.neumann_boundary, other_to_self_vertex
            )
""", """            or not _boundaries_coincide(
                self.neumann_boundary, self.neumann_boundary, {v: v for v in self.vertices}
            )
""")]},
  needs="two grids that differ in the free part of the boundary only",
  breaks="the free parts of the boundaries are not compared",
  demo=GRID + """
  assert grid() == grid()
  assert grid() != grid(free=(FREE[0], FREE[1][1:]))
  assert grid() != grid(free=(FREE[0][1:], FREE[1]))
  """),
 dict(id="C44-renumbered-edges", property="C44",
  edits={"domain.py": [("""        edge not in boundary.edges and (edge[1], edge[0]) not in boundary.edges
        for edge in other_edges
""", """        edge not in boundary.edges and (edge[0] < edge[1] or (edge[1], edge[0]) not in boundary.edges)
        for edge in other_edges
""")]},
  needs="a boundary edge that is listed from its larger to its smaller vertex in one of the two grids",
  breaks="the direction of boundary edges counts for some numberings",
  demo=GRID + """
  flip = lambda b: (b[0], [e[::-1] for e in b[1]])
  assert grid() == grid(out=flip(OUT)) and grid(out=flip(OUT)) == grid()
  """),
 dict(id="C45-append-reversed", property="C45",
  edits={"domain.py": [("        if edge not in self.edges and (edge[1], edge[0]) not in self.edges:\n            # Update mean",
                        "        if edge not in self.edges and (edge[1], edge[0]) not in self.edges[:-1]:\n            # Update mean")]},
  needs="appending an edge and then the same edge in the other direction",
  breaks="an edge is listed twice",
  demo=GRID + """
  g = grid(edges=[])
  for e in [(0, 1), (1, 0), (1, 4), (1, 0), (4, 1)]:
      g.append_edge(e)
  assert g.edges == [(0, 1), (1, 4)], g.edges
  """),
 dict(id="C45-first-edge", property="C45",
  edits={"domain.py": [("                self._mean_edge_length = new_edge_length\n", "                self._mean_edge_length = num_edges_old\n")]},
  needs="a grid without edges to which the first edge is appended",
  breaks="no position is found in such a grid any more",
  demo=GRID + """
  g = grid(edges=[])
  g.append_edge((0, 1))
  assert [g.point_to_vertex(Vector(list(p))) for p in P] == list(range(6))
  """),
 dict(id="C45-coarse-tolerance", property="C45",
  edits={"domain.py": [("        eps = self._mean_edge_length / 1e7 if self._mean_edge_length is not None else 1e-15\n",
                        "        eps = max(self._mean_edge_length / 1e7, 1e-5) if self._mean_edge_length is not None else 1e-15\n")]},
  needs="a mesh whose edges are of the order of 1e-6",
  breaks="positions of different vertices are taken for the same vertex",
  demo=GRID + """
  g = grid(scale=2e-6)
  assert [g.point_to_vertex(p) for p in g.points] == list(range(6))
  assert g.point_to_vertex(Vector([1e-6, 1e-6])) is None
  """),
 dict(id="C45-other-direction", property="C45",
  edits={"domain.py": [("        if edge not in self.edges:\n            raise ValueError(\"Provided edge is not in the list of edges\")\n\n        i1, i2 = edge\n",
                        "        if not self._contains_edge(edge):\n            raise ValueError(\"Provided edge is not in the list of edges\")\n\n        i1, i2 = edge if edge in self.edges else edge[::-1]\n")]},
  needs="asking for the corners of an edge in the direction in which it is not listed",
  breaks="the corners come in the order of the listed edge instead of a ValueError",
  demo=GRID + """
  g = grid()
  try:
      g.edge_vertices((4, 1))
  except ValueError:
      pass
  else:
      raise SystemExit("accepted")
  """),
]
