"""bugs in figures and animations, and loads that do not reach every part of the boundary"""
SIM = """
  import matplotlib
  matplotlib.use("Agg")
  import fakesolver
  import numpy as np
  f = fakesolver.install()
  from tvemoves_rufbad.domain import RectangleDomain
  from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""
BUGS = [
 dict(id="C46-uncleared-frames", property="C46",
  edits={"simulation.py": [("""            ax.clear()
            setup_axis(ax, self._xlims, self._ylims)
""", "            setup_axis(ax, self._xlims, self._ylims)\n")]},
  needs="an animation of more than one frame",
  breaks="every frame is drawn over all earlier ones",
  demo=SIM + """
  import tvemoves_rufbad.simulation as sim
  seen = []
  class Anim:
      def __init__(self, fig, fn, frames=None, **k):
          self.fig, self.fn, self.frames = fig, fn, frames
      def save(self, *a, **k):
          for i in range(self.frames):
              self.fn(i)
              seen.append(len(self.fig.axes[0].collections))
  sim.animation.FuncAnimation = Anim
  s = Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.5, 1.0, 2, 1.0))
  s.run(2)
  s.save_animation()
  assert seen == [1] * 4, seen
  """),
 dict(id="C46-reused-figure", property="C46",
  edits={"simulation.py": [("""        fig, ax = fig_axis(self._xlims, self._ylims)
        self.steps[i].plot(
            ax,
            self.max_temp(),
        )
""", """        if self._figure is None:
            self._figure = fig_axis(self._xlims, self._ylims)
        fig, ax = self._figure
        setup_axis(ax, self._xlims, self._ylims)
        self.steps[i].plot(
            ax,
            self.max_temp(),
        )
"""), ("        self._max_temp = 0\n", "        self._max_temp = 0\n        self._figure = None\n")]},
  needs="two plots of one simulation",
  breaks="the second plotted step is drawn over the first one",
  demo=SIM + """
  from matplotlib import pyplot as plt
  s = Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.5, 1.0, 2, 1.0))
  s.run(1)
  for i in (0, 1, 2):
      s.plot_step(i)
      assert len(plt.gcf().axes[0].collections) == 1, i
  """),
 dict(id="C46-rewound-clock", property="C46",
  edits={"simulation.py": [("""        def animate_frame(i):
            ax.clear()
""", """        def animate_frame(i):
            ax.clear()
            self._current_time = (i - 1) * self._tau
            ax.set_title(f"t = {self._current_time:.3f}")
""")]},
  needs="an animation that is saved between two runs",
  breaks="the loads of the next step are evaluated at an earlier time",
  demo=SIM + """
  import tvemoves_rufbad.simulation as sim
  class Anim:
      def __init__(self, fig, fn, frames=None, **k):
          self.fn, self.frames = fn, frames
      def save(self, *a, **k):
          for i in range(self.frames):
              self.fn(i)
  sim.animation.FuncAnimation = Anim
  times = []
  s = Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.5, 1.0, 2, 1.0),
                 external_temperature=lambda t: times.append(t) or 0.0)
  s.run(2)
  s.save_animation()
  s.run(1)
  assert abs(times[-1] - 1.5) < 1e-9, times
  """),
 dict(id="C33-free-boundary-only", property="C33",
  edits={"thermal_step.py": [("BoundaryIntegrator(1, grid.boundary.edges, grid.points)", "BoundaryIntegrator(1, grid.neumann_boundary.edges, grid.points)")]},
  needs="a domain with a fixed side and an external temperature",
  breaks="no heat is exchanged through the fixed part of the boundary",
  demo=SIM + """
  f.log.clear()
  p = SimulationParams(0.5, 1.0, 2, 1.0)
  def gain(fix):
      out = []
      for ext in (0.0, 3.0):
          f.log.clear()
          Simulation(RectangleDomain(1, 1, fix=fix), p, external_temperature=lambda t: ext)
          out.append(f.log[1][0]["objective"])
      return out[1] - out[0]
  assert abs(gain("lower") - gain(None)) < 1e-3, (gain("lower"), gain(None))
  """),
]
