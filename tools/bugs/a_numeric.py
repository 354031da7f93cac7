"""bugs in the numerical building blocks"""
BUGS = [
 dict(id="C16-signed-area", property="C16",
  edits={"integrators.py": [("            abs(first.stack(second).det() / 2) for", "            first.stack(second).det() / 2 for")]},
  needs="a triangle listed clockwise (the package's own grids list all triangles counter-clockwise)",
  breaks="areas become signed: integrals over clockwise triangles change sign and cancel others",
  demo="""
  from tvemoves_rufbad.tensors import Vector
  from tvemoves_rufbad.integrators import Integrator
  from tvemoves_rufbad.quadrature_rules import DUNAVANT2
  pts = [Vector([0.0, 0.0]), Vector([2.0, 0.0]), Vector([2.0, 1.0]), Vector([0.0, 1.0])]
  v = Integrator(DUNAVANT2, [(0, 1, 2), (0, 3, 2)], pts)(lambda t, b: 1.0)
  assert abs(v - 2.0) < 1e-12, v
  """),
 dict(id="C17-simplex-bound", property="C17",
  edits={"quadrature_rules.py": [("if x < 0 or y < 0 or x + y > 1:", "if x < 0 or y < 0 or x > 1 or y > 1:")]},
  needs="a rule with a node outside the triangle but inside the unit square, e.g. (0.75, 0.75)",
  breaks="rules whose nodes lie outside the triangle are accepted",
  demo="""
  from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule
  try:
      TriangleQuadratureRule([0.5, 0.5], [(0.75, 0.75), (0.25, 0.25)])
  except ValueError:
      pass
  else:
      raise SystemExit("node outside the triangle accepted")
  """),
 dict(id="C38-zero-vertical", property="C38",
  edits={"domain.py": [("""        if num_vertical_curves is None:
            num_vertical_curves = num_horizontal_curves
""", """        num_vertical_curves = num_vertical_curves or num_horizontal_curves
""")]},
  needs="curves() called with num_vertical_curves=0 and a positive number of horizontal curves",
  breaks="an explicit 0 for the vertical curves is replaced by the number of horizontal ones",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  c = RectangleDomain(2.0, 1.0).curves(5, 3, 0)
  assert len(c) == 7, len(c)
  """),
 dict(id="C31-zero-regularization", property="C31",
  edits={"simulation.py": [("        if self.regularization is not None and self.refinement_factor is None:", "        if self.regularization and self.refinement_factor is None:")]},
  needs="regularization given as exactly 0 without a refinement factor",
  breaks="an invalid combination is accepted: the regularized setting without refined grid",
  demo="""
  from tvemoves_rufbad.simulation import SimulationParams
  try:
      SimulationParams(0.5, 1.0, 3, 0.5, 0.0, None)
  except ValueError:
      pass
  else:
      raise SystemExit("regularization without refinement factor accepted")
  """),
 dict(id="C28-clockwise", property="C28",
  edits={"domain.py": [("    return not (has_neg and has_pos)", "    return not (has_pos if d1 + d2 + d3 < -eps else has_neg) and not (has_neg and has_pos)"),
                        ("    has_pos = (d1 > eps) or (d2 > eps) or (d3 > eps)", "    has_pos = (d1 > eps) or (d2 > eps) or (d3 > -eps)")]},
  needs="a point on a side p1-p3 of a clockwise listed triangle (or near it)",
  breaks="points on one side of a clockwise triangle are reported as outside of the grid",
  demo="""
  from tvemoves_rufbad.tensors import Vector
  from tvemoves_rufbad.domain import Grid, Boundary
  b = Boundary([], [])
  g = Grid([0, 1, 2], [(0, 1), (1, 2), (2, 0)], [(0, 2, 1)], b, b, b, [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([1.0, 1.0])])
  for x, y in ((0.5, 0.0), (0.75, 0.5), (0.5, 0.5), (1.0, 0.5)):
      assert g.to_barycentric_point(Vector([x, y])) is not None, (x, y)
  """),
 dict(id="C30-extend-inplace", property="C30",
  edits={"tensors.py": [("        return Vector(self.data + other.data)", "        data = self.data if not other.data else self.data + other.data\n        return Vector(data)")]},
  needs="extending by an empty vector and modifying the result's data afterwards",
  breaks="the extended vector shares its storage with the original",
  demo="""
  from tvemoves_rufbad.tensors import Vector
  v = Vector([1, 2])
  w = v.extend(Vector([]))
  w.data.append(5)
  assert v == Vector([1, 2]) and list(v) == [1, 2], v.data
  """),
]
