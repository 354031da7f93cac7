"""bugs that need long runs, earlier calls, unusual sizes or magnitudes"""
SIM = """
  import fakesolver
  import numpy as np
  f = fakesolver.install()
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""
BUGS = [
 dict(id="C03-wrapping-clock", property="C03",
  edits={"simulation.py": [("        self._current_time += self._tau\n", "        self._current_time = (self._current_time + self._tau) % 60 if self.steps[1:] else self._current_time + self._tau\n")]},
  needs="a simulation that runs for more than a minute of simulated time",
  breaks="loads are evaluated at a time that starts again at 0 every 60 seconds",
  demo=SIM + """
  times = []
  s = Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.5, 1.0, 0.25, 1.0),
                 external_temperature=lambda t: times.append(t) or 0.0)
  s.run(20)
  assert abs(times[-1] - max(times)) < 1e-9 and times[-1] > 70, times
  """),
 dict(id="C02-thinned-history", property="C02",
  edits={"simulation.py": [("""        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        for k in tqdm(range(num_steps)):
            if k == 64:
                # bound the memory of long runs
                del self.steps[1:-1:2]
            self._run_single_step()""")]},
  needs="a single run of more than 64 steps",
  breaks="recorded steps disappear in long runs",
  demo=SIM + """
  s = Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.5, 1.0, 4, 1.0))
  s.run(66)
  assert len(s.steps) == 68, len(s.steps)
  """),
 dict(id="C27-reused-triangle", property="C27",
  edits={"interpolation.py": [("""        p = Vector([x, y])
        p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
""", """        p = Vector([x, y])
        key = (round(x, 2), round(y, 2))
        if key not in self._located:
            self._located[key] = self.grid.to_barycentric_point(p)
        p_barycentric = self._located[key]
        if p_barycentric is None:
"""), ("        self.grid = barycentric_interpolation.grid\n", "        self.grid = barycentric_interpolation.grid\n        self._located = {}\n")]},
  needs="two evaluations at points closer than a hundredth",
  breaks="the second evaluation returns the value at the first point",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.interpolation import P1Interpolation, EuclideanInterpolation
  g = RectangleDomain(1, 1).grid(1)
  u = EuclideanInterpolation(P1Interpolation(g, [p[0] for p in g.points]))
  assert abs(u(0.502, 0.3) - 0.502) < 1e-9
  assert abs(u(0.504, 0.3) - 0.504) < 1e-9
  """),
 dict(id="C15-absolute-determinant", property="C15",
  edits={"helpers.py": [("    return strain.det() * strain_inverse", "    return pyo.sqrt(strain.det() ** 2) * strain_inverse")]},
  needs="a strain of negative determinant",
  breaks="the sign of the pulled back conductivity",
  demo="""
  from tvemoves_rufbad.helpers import heat_conductivity_reference as k
  from tvemoves_rufbad.tensors import Matrix
  r = k(Matrix([[-2.0, 0.0], [0.0, 1.0]]))
  assert abs(r[0, 0] + 0.5) < 1e-9 and abs(r[1, 1] + 2) < 1e-9, r
  """),
 dict(id="C16-skipped-slivers", property="C16",
  edits={"integrators.py": [("            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)\n",
                             "            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)\n            if triangle_area > 1e-9\n")]},
  needs="a mesh with triangles of an area below 1e-9",
  breaks="small triangles do not contribute",
  demo="""
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.integrators import Integrator
  from tvemoves_rufbad.quadrature_rules import DUNAVANT2
  g = RectangleDomain(2e-5, 1e-5).grid(1e-5)
  v = Integrator(DUNAVANT2, g.triangles, g.points)(lambda t, b: 1.0)
  assert abs(v - 2e-10) < 1e-15, v
  """),
 dict(id="C29-long-trace", property="C29",
  edits={"tensors.py": [("return sum(self.data[i][i] for i in range(min(self.shape)))", "return sum(self.data[i][i] for i in range(self.shape[0]) if i < self.shape[1] - (self.shape[0] > 8))")]},
  needs="the trace of a matrix with more than eight rows",
  breaks="the last diagonal entry is missing",
  demo="""
  from tvemoves_rufbad.tensors import Matrix
  assert Matrix([[float(i == j) for j in range(9)] for i in range(9)]).trace() == 9.0
  """),
 dict(id="C30-tolerant-equality", property="C30",
  edits={"tensors.py": [("        if not isinstance(other, Matrix):\n            return NotImplemented\n        return self.data == other.data",
                         "        if not isinstance(other, Matrix):\n            return NotImplemented\n        return self.shape == other.shape and all(\n            abs(x - y) < 1e-12 for a, b in zip(self.data, other.data) for x, y in zip(a, b)\n        )")]},
  needs="matrices whose entries differ by less than 1e-12",
  breaks="different matrices compare equal",
  demo="""
  from tvemoves_rufbad.tensors import Matrix
  assert Matrix([[1e-13, 0.0]]) != Matrix([[2e-13, 0.0]])
  assert Matrix([[1e-13, 0.0]]) == Matrix([[1e-13, 0.0]])
  """),
 dict(id="C17-sorted-weights", property="C17",
  edits={"quadrature_rules.py": [("        self.weights = list(weights)\n\n    def __iter__(self) -> Iterator[tuple[float, float]]:",
                                  "        self.weights = sorted(weights) if degree > 5 else list(weights)\n\n    def __iter__(self) -> Iterator[tuple[float, float]]:")]},
  needs="an edge rule with more than five nodes",
  breaks="weights and nodes are paired wrongly",
  demo="""
  from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule as G
  assert abs(sum(w * x ** 2 for w, x in G(6)) - 1 / 3) < 1e-9
  """),
]
