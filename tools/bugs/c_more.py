"""bugs in the functionals, the material laws, the grids and the wrappers that need unusual inputs to show"""
SIM = """
  import fakesolver
  import numpy as np
  import pyomo.environ as pyo
  f = fakesolver.install()
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.simulation import Simulation, SimulationParams
  def sim(reg=None, fix="lower", n=0, fps=4, **kw):
      s = Simulation(RectangleDomain(1, 1, fix=fix), SimulationParams(0.5, 1.0, fps, 1.0, reg, 1 if reg is not None else None), **kw)
      for _ in range(n):
          s.run()
      return s
"""
BUGS = [
 dict(id="C09-viscosity-floor", property="C09",
  edits={"mechanical_step.py": [("        expr=m.total_elastic_energy - m.boundary_traction_energy + fps * m.dissipation",
                                 "        expr=m.total_elastic_energy - m.boundary_traction_energy + max(fps, 1) * m.dissipation")]},
  needs="a time step longer than 1 (fps below 1) in the unregularized setting",
  breaks="the viscous term is too strong by the factor 1/fps for slow frame rates",
  demo=SIM + """
  f.step = 1e-2
  for fps in (0.25, 2.0):
      m = sim(n=1, fps=fps)._mechanical_step._model
      want = pyo.value(m.total_elastic_energy - m.boundary_traction_energy) + fps * pyo.value(m.dissipation)
      assert pyo.value(m.dissipation) > 1e-9
      assert abs(pyo.value(m.objective) - want) < 1e-9, (fps, pyo.value(m.objective), want)
  """),
 dict(id="C10-new-strain-in-pullback", property="C10",
  edits={"thermal_step.py": [("        diffusion = temp_gradient.dot(heat_conductivity_reference(prev_strain).dot(temp_gradient))",
                              "        reference = prev_strain + (strain - prev_strain) * min(1.0, fps / 8)\n        diffusion = temp_gradient.dot(heat_conductivity_reference(reference).dot(temp_gradient))")]},
  needs="a temperature that varies in space together with a strain that changed in the last step",
  breaks="heat conduction uses a strain between the previous and the new one, depending on the frame rate",
  demo="""
  from tvemoves_rufbad.tensors import Matrix, Vector
  from tvemoves_rufbad.thermal_step import _energy_potential
  from tvemoves_rufbad.helpers import heat_conductivity_reference as k
  p, n, g = Matrix([[1.2, 0.1], [0.0, 0.9]]), Matrix([[1.4, 0.3], [0.1, 1.1]]), Vector([0.3, -0.7])
  for fps in (2.0, 16.0):
      e = _energy_potential(fps)
      got = e(p, n, 0.4, 0.0, g)
      assert abs(got - g.dot(k(p).dot(g))) < 1e-12, (fps, got)
  """),
 dict(id="C11-linear-rate", property="C11",
  edits={"helpers.py": [("    return strain_delta.transpose() @ prev_strain + prev_strain.transpose() @ strain_delta",
                         "    return strain_delta.transpose() @ prev_strain + strain_delta")]},
  needs="a strain rate seen from a rotated frame; at the undeformed state both agree",
  breaks="dissipation depends on the observer and is not the symmetric rate",
  demo="""
  from math import cos, sin
  from tvemoves_rufbad.tensors import Matrix
  from tvemoves_rufbad.helpers import dissipation_potential as d
  p, n = Matrix([[1.2, 0.1], [0.0, 0.9]]), Matrix([[1.4, 0.3], [0.1, 1.1]])
  q = Matrix([[cos(1.0), -sin(1.0)], [sin(1.0), cos(1.0)]])
  assert abs(d(p, n) - d(q @ p, q @ n)) < 1e-12, (d(p, n), d(q @ p, q @ n))
  """),
 dict(id="C12-one-well-lost", property="C12",
  edits={"helpers.py": [("    _double_well.subs(_u, _I1 / _J - 2 - MARTENSITE_POS_SHEAR**2) + (_J**2 + 1 / (_J**2) - 2) ** 2",
                         "    _double_well.subs(_u, _I1 / _J - 2 - MARTENSITE_POS_SHEAR * (_F.T @ _F)[0, 1] / _J) + (_J**2 + 1 / (_J**2) - 2) ** 2")]},
  needs="the shear in the negative direction: the positive well keeps its value",
  breaks="the second martensite variant is not a minimum of the martensite potential any more",
  demo="""
  from tvemoves_rufbad.tensors import Matrix
  from tvemoves_rufbad.helpers import martensite_potential as w
  for s in (0.5, -0.5):
      assert abs(w(Matrix([[1.0, s], [0.0, 1.0]]))) < 1e-12, s
  """),
 dict(id="C13-transposed-gradient", property="C13",
  edits={"helpers.py": [("    [sp.diff(_martensite_potential_symbolic, _F[i, j]) for j in range(2)] for i in range(2)",
                         "    [sp.diff(_martensite_potential_symbolic, _F[j, i]) for j in range(2)] for i in range(2)")]},
  needs="a strain that is not symmetric",
  breaks="the off-diagonal entries of the martensite stress are exchanged",
  demo="""
  from tvemoves_rufbad.tensors import Matrix
  from tvemoves_rufbad.helpers import martensite_potential as w, derivative_martensite_potential as dw
  f = [[1.2, 0.4], [-0.1, 0.9]]
  g = dw(Matrix(f))
  for i in range(2):
      for j in range(2):
          a, b = [r[:] for r in f], [r[:] for r in f]
          a[i][j] += 1e-6
          b[i][j] -= 1e-6
          n = (w(Matrix(a)) - w(Matrix(b))) / 2e-6
          assert abs(n - g[i, j]) < 1e-5, (i, j, n, g[i, j])
  """),
 dict(id="C14-rate-scaling", property="C14",
  edits={"helpers.py": [("    return dissipation_potential(prev_strain, strain) * 2 * fps**2",
                         "    return (strain.transpose() @ strain - prev_strain.transpose() @ prev_strain).normsqr() * fps**2")]},
  needs="a strain change that is not infinitesimal",
  breaks="the rate uses the exact instead of the linearised change of the metric: it is not twice the potential",
  demo="""
  from tvemoves_rufbad.tensors import Matrix
  from tvemoves_rufbad.helpers import dissipation_potential as d, dissipation_rate as r
  p, n = Matrix([[1.2, 0.1], [0.0, 0.9]]), Matrix([[1.4, 0.3], [0.1, 1.1]])
  assert abs(r(p, n, 3.0) - 18 * d(p, n)) < 1e-9
  """),
 dict(id="C15-transposed-pullback", property="C15",
  edits={"helpers.py": [("    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()",
                         "    return strain.det() * strain_inverse.transpose() @ HEAT_CONDUCTIVITY @ strain_inverse")]},
  needs="a strain that is not normal (e.g. a shear)",
  breaks="conductivity is pulled back with the transposed inverse",
  demo="""
  import numpy as np
  from tvemoves_rufbad.tensors import Matrix
  from tvemoves_rufbad.helpers import heat_conductivity_reference as k
  f = np.array([[1.0, 0.5], [0.1, 1.2]])
  i = np.linalg.inv(f)
  assert np.allclose(k(Matrix(f.tolist())).numpy(), np.linalg.det(f) * i @ i.T)
  """),
 dict(id="C18-rounded-count", property="C18",
  edits={"domain.py": [("        num_vertical_vertices = int(self.height / scale) + 1", "        num_vertical_vertices = round(self.height / scale) + 1")]},
  needs="a height that is more than half a cell above a multiple of the scale",
  breaks="the grid sticks out of the rectangle by part of a row",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  g = RectangleDomain(1.75, 1.75).grid(0.5)
  assert len(g.vertices) == 16, len(g.vertices)
  assert max(p[1] for p in g.points) <= 1.75
  """),
 dict(id="C19-opposite-sides", property="C19",
  edits={"domain.py": [("                        neumann_edges.difference_update(upper_boundary_edges)",
                        "                        if \"lower\" not in fixes or len(fixes) < 3:\n                            neumann_edges.difference_update(upper_boundary_edges)")]},
  needs="three or more fixed sides among which are the lower and the upper one",
  breaks="the upper side is at the same time fixed and loaded",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  g = RectangleDomain(2, 1, fix=["lower", "left", "upper"]).grid(0.5)
  assert not set(g.dirichlet_boundary.edges) & set(g.neumann_boundary.edges)
  """),
 dict(id="C20-tight-bounds", property="C20",
  edits={"domain.py": [("            next_barycentric_coords.assert_bounds()\n", "            next_barycentric_coords.assert_bounds(upper=0.8)\n")]},
  needs="a refinement factor above 5",
  breaks="new vertices next to a corner are put at the wrong place",
  demo="""
  from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates
  from tvemoves_rufbad.domain import RectangleDomain, BarycentricPoint
  d = RectangleDomain(1, 1)
  g = d.grid(1)
  r = d.refine(g, 6)
  for t in r.triangles:
      for l in ((1, 0), (0, 1), (0, 0)):
          c = r.to_coarse_barycentric_point(BarycentricPoint(t, BarycentricCoordinates(*l)))
          a = sum((w * g.points[i] for w, i in zip(c.coordinates, c.triangle)), Vector([0.0, 0.0]))
          b = sum((w * r.points[i] for w, i in zip(BarycentricCoordinates(*l), t)), Vector([0.0, 0.0]))
          assert (a - b).norm() < 1e-9, (t, l)
  """),
 dict(id="C26-flipped-normals", property="C26",
  edits={"bell_finite_element.py": [("    return (p3[0] - p2[0], p1[0] - p3[0], p2[0] - p1[0])", "    c = (p3[0] - p2[0], p1[0] - p3[0], p2[0] - p1[0])\n    return c if sum(_get_a(triangle_vertices)) > 0 else tuple(-x for x in c)")]},
  needs="a triangle listed clockwise next to one listed counter-clockwise",
  breaks="the C1 interpolation's gradient jumps across their common edge",
  demo="""
  from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates
  from tvemoves_rufbad.domain import Grid, Boundary
  from tvemoves_rufbad.interpolation import C1Interpolation
  b = Boundary([], [])
  P = [Vector([0.0, 0.0]), Vector([1.0, 0.2]), Vector([0.1, 1.3]), Vector([0.9, -1.0])]
  g = Grid([0, 1, 2, 3], [(0, 1)], [(0, 1, 2), (0, 1, 3)], b, b, b, P)
  for k in range(24):
      d = [[1.0 if 6 * i + j == k else 0.0 for j in range(6)] for i in range(4)]
      u = C1Interpolation(g, d)
      for t in (0.25, 0.5, 0.875):
          x = u.gradient((0, 1, 2), BarycentricCoordinates(t, 1 - t))
          y = u.gradient((0, 1, 3), BarycentricCoordinates(t, 1 - t))
          assert (x - y).norm() < 1e-9, (k, t, x, y)
  """),
 dict(id="C24-unsigned-area", property="C24",
  edits={"bell_finite_element.py": [("    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)",
                                     "    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * abs(delta))")]},
  needs="a triangle listed clockwise (the rectangle's grids have none)",
  breaks="gradients have the wrong sign in clockwise triangles",
  demo="""
  from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates
  from tvemoves_rufbad.domain import Grid, Boundary
  from tvemoves_rufbad.interpolation import P1Interpolation
  b = Boundary([], [])
  g = Grid([0, 1, 2], [], [(0, 2, 1)], b, b, b, [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([0.0, 1.0])])
  d = P1Interpolation(g, [0.0, 2.0, 3.0]).gradient((0, 2, 1), BarycentricCoordinates(0.25, 0.25))
  assert abs(d[0] - 2) < 1e-12 and abs(d[1] - 3) < 1e-12, d
  """),
 dict(id="C25-rounded-geometry", property="C25",
  edits={"bell_finite_element.py": [("    return (p2[1] - p3[1], p3[1] - p1[1], p1[1] - p2[1])", "    return tuple(round(d, 10) for d in (p2[1] - p3[1], p3[1] - p1[1], p1[1] - p2[1]))")]},
  needs="a very fine mesh (or one measured in metres for a microscopic body)",
  breaks="the geometry of small triangles is rounded, so nodal derivatives and polynomials are not reproduced",
  demo="""
  from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates
  from tvemoves_rufbad.bell_finite_element import bell_interpolation_gradient as g
  for h in (1.0, 1e-9):
      t = (Vector([0.0, 0.0]), Vector([h, 0.123 * h]), Vector([0.1 * h, 1.377 * h]))
      d = [x for p in t for x in (p[1], 0.0, 1.0, 0.0, 0.0, 0.0)]
      m = g(t, BarycentricCoordinates(0.25, 0.5), Vector(d))
      assert abs(m[1] - 1) < 1e-6 and abs(m[0]) < 1e-6, (h, m)
  """),
 dict(id="C21-role-by-vertices", property="C21",
  edits={"domain.py": [("""    if edge not in boundary.edges:
        return

    intermediate_boundary""", """    if not boundary.edges or any(vertex not in boundary.vertices for vertex in edge):
        return

    intermediate_boundary""")]},
  needs="an edge inside the body whose two end points both lie on the boundary (a body that is one cell wide)",
  breaks="inner edges become part of the refined boundary",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  d = RectangleDomain(2, 1, fix="lower")
  r = d.refine(d.grid(1), 2)
  assert len(r.boundary.edges) == 12, len(r.boundary.edges)
  """),
 dict(id="C27-hyper-strain-order", property="C27",
  edits={"interpolation.py": [("        hessian_y1 = self._y[0].hessian(x, y)\n        hessian_y2 = self._y[1].hessian(x, y)\n        return hessian_y1.stack(hessian_y2)",
                               "        hessians = [component.hessian(x, y) for component in self._y]\n        return hessians[-1].stack(hessians[0])")]},
  needs="the second gradient of a recorded deformation whose components differ",
  breaks="the slices of the hyper strain at Euclidean points are exchanged",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.interpolation import C1Interpolation, EuclideanDeformation
  g = RectangleDomain(1, 1).grid(1)
  a = C1Interpolation(g, [[p[0] ** 2, 2 * p[0], 0.0, 2.0, 0.0, 0.0] for p in g.points])
  b = C1Interpolation(g, [[0.0] * 6 for p in g.points])
  h = EuclideanDeformation(a, b).hyper_strain(0.7, 0.3)
  assert abs(h[0, 0, 0] - 2) < 1e-9 and abs(h[1, 0, 0]) < 1e-9, h
  """),
 dict(id="C29-first-slice", property="C29",
  edits={"tensors.py": [("        for submatrix in data:\n            if len(submatrix) != self.shape[1]:", "        for submatrix in data[1:]:\n            if len(submatrix) != self.shape[1]:")]},
  needs="a ragged first slice while all others are regular",
  breaks="inhomogeneous initial data of a 3-tensor is accepted",
  demo="""
  from tvemoves_rufbad.tensors import Tensor3D
  try:
      Tensor3D([[[1, 2], [3]], [[1, 2], [3, 4]]])
  except ValueError:
      pass
  else:
      raise SystemExit("ragged data accepted")
  """),
 dict(id="C32-whole-fps", property="C32",
  edits={"simulation.py": [("""            self.initial_temperature,
            self.search_radius,
            self.fps,
            self.regularization,
        )
""", """            self.initial_temperature,
            self.search_radius,
            max(round(self.fps), 1),
            self.regularization,
        )
""")]},
  needs="a frame rate that is not a whole number",
  breaks="the mechanical problem uses a rounded frame rate, the thermal problem the configured one",
  demo="""
  from tvemoves_rufbad.simulation import SimulationParams
  assert SimulationParams(0.5, 1.0, 2.5, 1.0).mechanical_step_params().fps == 2.5
  """),
 dict(id="C36-error-path", property="C36",
  edits={"thermal_step.py": [("        raise ValueError(f\"y has incorrect shape {y.shape} (should be {y_data_shape}\")",
                              "        raise ValueError(f\"y has incorrect shape {y.shapes} (should be {y_data_shape}\")")]},
  needs="a deformation of the wrong shape handed to the thermal problem",
  breaks="the error message itself fails with AttributeError",
  demo="""
  import numpy as np
  from tvemoves_rufbad.thermal_step import _check_prev_step_data as c
  try:
      c((3, 2), (3,), np.zeros((3, 2)), np.zeros((2, 2)), np.zeros(3))
  except ValueError:
      pass
  else:
      raise SystemExit("accepted")
  """),
 dict(id="C39-own-scale", property="C39",
  edits={"simulation.py": [("            vmax=max_temp,\n", "            vmax=max(max_temp, *c),\n")]},
  needs="a step that is drawn with a maximal temperature below its own temperatures",
  breaks="the colour range does not end at the maximal temperature it is called with",
  demo=SIM + """
  from unittest.mock import MagicMock
  s = sim()
  ax = MagicMock()
  s.steps[0].plot(ax, 0.25)
  assert ax.tripcolor.call_args.kwargs["vmax"] == 0.25
  """),
 dict(id="C22-shared-vertices", property="C22",
  edits={"domain.py": [("            Boundary(deepcopy(grid.neumann_boundary.vertices), []),", "            Boundary(grid.neumann_boundary.vertices, []),")]},
  needs="refining a grid whose Neumann sides get new vertices, then looking at the coarse grid",
  breaks="the coarse grid's Neumann vertex list grows with every refinement",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  d = RectangleDomain(1, 1, fix="lower")
  g = d.grid(1)
  before = list(g.neumann_boundary.vertices)
  d.refine(g, 3)
  assert g.neumann_boundary.vertices == before
  """),
 dict(id="C23-edge-lookup", property="C23",
  edits={"interpolation.py": [("        edge_vertices = (self.grid.points[i1], self.grid.points[i2])\n", "        edge_vertices = self.grid.edge_vertices(tuple(sorted(edge)))\n")]},
  needs="an edge listed from the larger to the smaller vertex number",
  breaks="derivatives along a reversed edge enter with the wrong sign",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.interpolation import C1Interpolation
  g = RectangleDomain(1, 1).grid(1)
  u = C1Interpolation(g, [[p[0] ** 2 + p[1], 2 * p[0], 1.0, 2.0, 0.0, 0.0] for p in g.points])
  assert abs(u.on_edge((1, 0), 0.25) - 0.0625) < 1e-9, u.on_edge((1, 0), 0.25)
  """),
]
BUGS = [b for b in BUGS if b["demo"]]
