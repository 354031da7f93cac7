"""bugs in the staggered scheme and in the exchange of arrays with the minimisation steps"""
SIM = """
  import fakesolver
  import numpy as np
  f = fakesolver.install()
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.simulation import Simulation, SimulationParams
  def sim(reg=None, fix="lower", n=0, **kw):
      s = Simulation(RectangleDomain(1, 1, fix=fix), SimulationParams(0.5, 1.0, 4, 1.0, reg, 1 if reg is not None else None), **kw)
      for _ in range(n):
          s.run()
      return s
"""
BUGS = [
 dict(id="C01-stale-previous", property="C01",
  edits={"simulation.py": [("        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())",
                           "        if len(self.steps) < 3 or self._max_temp > self.params.initial_temperature:\n            self._thermal_step.update_prev_y(self._mechanical_step.prev_y())")]},
  needs="a third step while the body was never warmer than at the start",
  breaks="the thermal step compares the new deformation with a deformation two or more steps old",
  demo=SIM + """
  f.step = 1e-3
  s = sim(n=1)
  s._max_temp = 0.0  # nothing warmer than at the start was recorded
  for k in range(3):
      s._max_temp = 0.0
      s.run()
      assert np.allclose(s._thermal_step.prev_y(), s.steps[-2]._y_data), k
  """),
 dict(id="C02-shared-array", property="C02",
  edits={"thermal_step.py": [("""        self._search_radius = search_radius
        self._external_temperature = external_temperature
""", """        self._search_radius = search_radius
        self._theta_buffer = np.empty(self._num_vertices)
        self._external_temperature = external_temperature
"""), ("        return np.array([m.theta[i].value for i in m.vertices])",
       "        for k, i in enumerate(m.vertices):\n            self._theta_buffer[k] = m.theta[i].value\n        return self._theta_buffer")]},
  needs="a step recorded earlier is looked at after a later one",
  breaks="all recorded temperatures are the same array: history is overwritten by every step",
  demo=SIM + """
  s = sim(n=1)
  old = s.steps[-1]._theta_data.copy()
  text = str(s.steps[-1])
  s.run()
  assert np.array_equal(s.steps[-2]._theta_data, old)
  assert str(s.steps[-2]) == text
  """),
 dict(id="C03-traction-only-nonzero", property="C03",
  edits={"mechanical_step.py": [("            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])",
"""            g1, g2 = self._boundary_traction(current_time, *self._grid.points[i])
            if g1 or g2:
                m.g1[i], m.g2[i] = g1, g2""")]},
  needs="a traction that is switched off after a while",
  breaks="a traction that vanishes is not removed: the last force keeps acting",
  demo=SIM + """
  s = sim(n=4, boundary_traction=lambda t, x, y: [0.0, 1.0] if t < 0.6 else [0.0, 0.0])
  m = s._mechanical_step._model
  assert all(m.g2[i].value == 0 for i in m.neumann_vertices), [m.g2[i].value for i in m.neumann_vertices]
  """),
 dict(id="C04-box-of-other-component", property="C04",
  edits={"mechanical_step.py": [("""            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )

    def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
        if new_prev_theta.shape != (self._num_vertices,):
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                f" {(self._num_vertices,)})"
            )

        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction""", """            if not m.y2[i].fixed:
                m.y2[i].setlb(min(m.y2[i].lb, new_prev_y2[i] - self._search_radius))
                m.y2[i].setub(max(m.y2[i].ub, new_prev_y2[i] + self._search_radius))

    def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
        if new_prev_theta.shape != (self._num_vertices,):
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                f" {(self._num_vertices,)})"
            )

        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction""")]},
  needs="a deformation that keeps moving: the box of the second component only ever grows",
  breaks="the search box of the vertical displacement is not the configured one after the first step",
  demo=SIM + """
  s = sim(n=3)
  for before, after, m in f.log[-2:-1]:
      for k, (v, lo, hi, fixed) in before["y2"].items():
          if not fixed:
              assert abs(hi - lo - 2.0) < 1e-12, (k, lo, hi)
  """),
 dict(id="C05-mixed-derivative-order", property="C05",
  edits={"thermal_step.py": [("""        new_y1 = new_y[:, 0, :]
        new_y2 = new_y[:, 1, :]
""", """        new_y1, new_y2 = new_y.reshape(len(vertices), 6, 2).transpose(2, 0, 1)
""")]},
  needs="the regularized setting and an array whose six values per component differ",
  breaks="the two components' degrees of freedom are interleaved when the deformation is handed to the thermal step",
  demo="""
  import fakesolver
  import numpy as np
  fakesolver.install()
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.simulation import Simulation, SimulationParams
  s = Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.5, 1.0, 4, 1.0, 0.1, 1))
  a = np.arange(48.0).reshape(4, 2, 6)
  s._thermal_step.update_y(a)
  assert np.array_equal(s._thermal_step.y(), a)
  """),
 dict(id="C06-length-only", property="C06",
  edits={"mechanical_step.py": [("""        if new_prev_theta.shape != (self._num_vertices,):
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                f" {(self._num_vertices,)})"
            )

        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction""", """        if new_prev_theta.size != self._num_vertices:
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                f" {(self._num_vertices,)})"
            )

        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = float(new_prev_theta.flat[i])

    def update_boundary_traction""")]},
  needs="an array with the right number of entries but another shape, e.g. (N, 1) or (2, N/2)",
  breaks="wrongly shaped temperatures are accepted",
  demo=SIM + """
  s = sim()
  for shape in ((4, 1), (1, 4), (2, 2)):
      try:
          s._mechanical_step.update_prev_theta(np.ones(shape))
      except ValueError:
          continue
      raise SystemExit(f"shape {shape} accepted")
  """),
 dict(id="C07-corner-released", property="C07",
  edits={"mechanical_step.py": [("""    for v in m.dirichlet_vertices:
        m.y1[v].fix()
        m.y2[v].fix()
""", """    for v in m.dirichlet_vertices:
        m.y2[v].fix()
        # corners carry the surface load as well
        if v not in m.neumann_vertices or len(m.dirichlet_vertices) == len(grid.boundary.vertices):
            m.y1[v].fix()
""")]},
  needs="a vertex that belongs to both the clamped and the free boundary",
  breaks="clamped corners slide in the first direction",
  demo=SIM + """
  s = sim(n=2)
  for v in s._grid.dirichlet_boundary.vertices:
      for st in s.steps:
          assert tuple(st._y_data[v]) == tuple(s._grid.points[v]), v
  """),
 dict(id="C08-cross-term", property="C08",
  edits={"mechanical_step.py": [("            return y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0",
                                "            return y[j, 4] * d[0] ** 2 + y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0")]},
  needs="a clamped edge parallel to neither axis (a domain other than the rectangle)",
  breaks="the second tangential derivative at the second endpoint of a clamped edge is not held at zero",
  demo="""
  import os, sys
  from tvemoves_rufbad.tensors import Vector
  from tvemoves_rufbad import mechanical_step as M
  # linear map: rotate second derivatives so that only the tangential one vanishes
  y = {(i, j): 0.0 for i in (1, 2) for j in range(1, 7)}
  p, q = Vector([0.0, 0.0]), Vector([1.0, 2.0])
  d = q - p
  for i in (1, 2):
      y[(i, 4)], y[(i, 5)], y[(i, 6)] = 4.0, -2.0, 1.0
  assert M._dirichlet_constraint_regularized(y, (0, 1), (p, q), 3, 0)
  assert M._dirichlet_constraint_regularized(y, (0, 1), (p, q), 6, 0)
  """),
 dict(id="C34-retry", property="C34",
  edits={"thermal_step.py": [("""        self._external_temperature = external_temperature

    def solve(self) -> None:
        pyo.assert_optimal_termination(self._solver.solve(self._model))
""", """        self._external_temperature = external_temperature

    def solve(self) -> None:
        results = self._solver.solve(self._model)
        if results.solver.termination_condition != pyo.TerminationCondition.maxIterations:
            pyo.assert_optimal_termination(results)
""")]},
  needs="the solver gives up at its iteration limit in a thermal step",
  breaks="an unconverged temperature is recorded as a step",
  demo="""
  import fakesolver
  import pyomo.environ as pyo
  f = fakesolver.install(fail_at=4, condition=pyo.TerminationCondition.maxIterations)
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.simulation import Simulation, SimulationParams
  s = Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.5, 1.0, 4, 1.0))
  try:
      s.run()
  except Exception:
      assert len(s.steps) == 2
  else:
      raise SystemExit("failed solve recorded")
  """),
 dict(id="C35-default-list", property="C35",
  edits={"simulation.py": [("class Simulation:\n    \"\"\"Class implementing the minimizing movement scheme with or without regularization.\"\"\"\n",
   "class Simulation:\n    \"\"\"Class implementing the minimizing movement scheme with or without regularization.\"\"\"\n\n    _grids: dict = {}\n"),
   ("        self._grid = self._domain.grid(self.params.scale)\n",
    "        key = (type(domain).__name__, getattr(domain, \"width\", None), getattr(domain, \"height\", None), params.scale)\n        if key not in Simulation._grids:\n            Simulation._grids[key] = self._domain.grid(self.params.scale)\n        self._grid = Simulation._grids[key]\n")]},
  needs="two simulations in one process on rectangles of the same size clamped at different sides",
  breaks="the second simulation gets the grid, and so the clamping, of the first",
  demo=SIM + """
  a = sim(fix="lower")
  b = sim(fix=["left", "right"])
  want = RectangleDomain(1, 1, fix=["left", "right"]).grid(1.0)
  assert sorted(b._grid.dirichlet_boundary.edges) == sorted(want.dirichlet_boundary.edges)
  """),
 dict(id="C37-late-limits", property="C37",
  edits={"simulation.py": [("        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))",
   "        if np.min(y_coords) < self._ylims[0]:\n            self._ylims = (np.min(y_coords), max(self._ylims[1], np.max(y_coords)))\n        elif np.max(y_coords) > self._ylims[1]:\n            self._ylims = (self._ylims[0], self._ylims[1] + self._tau * (np.max(y_coords) - self._ylims[1]))")]},
  needs="a step that grows upwards without growing downwards",
  breaks="the plot window cuts off the top of later states",
  demo=SIM + """
  f.step = 0.5
  s = sim(n=3)
  for st in s.steps:
      assert s._ylims[1] >= st._y_data[:, 1].max() - 1e-12
      assert s._ylims[0] <= st._y_data[:, 1].min() + 1e-12
  """),
 dict(id="C37-negative-index", property="C37",
  edits={"simulation.py": [("            step_index = i if i >= 0 else len(self.steps) + i",
                           "            step_index = i if i > 0 else len(self.steps) + i")]},
  needs="saving step 0",
  breaks="step 0 is saved under the name of a step that does not exist",
  demo=SIM + """
  import os, tempfile
  s = sim()
  with tempfile.TemporaryDirectory() as d:
      s.save_step(0, d + "/s")
      assert os.listdir(d) == ["s_0.png"], os.listdir(d)
  """),
]
