"""demo helper: run the package in the current directory with a stand-in for ipopt"""
import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
import pyomo.environ as pyo  # noqa: E402
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition  # noqa: E402


class Fake:
    """moves every free variable by a small amount that depends on the solve and the variable;
    snapshots of the model are kept in .log"""

    def __init__(self, step=1e-3, fail_at=None, condition=TerminationCondition.infeasible):
        self.n, self.step, self.log, self.fail_at, self.condition = 0, step, [], fail_at, condition

    def snap(self, m):
        s = {"name": m.name, "objective": pyo.value(m.objective)}
        for c in m.component_objects((pyo.Var, pyo.Param)):
            s[c.local_name] = {
                k: (pyo.value(c[k], exception=False),
                    c[k].lb if isinstance(c, pyo.Var) else None,
                    c[k].ub if isinstance(c, pyo.Var) else None,
                    c[k].fixed if isinstance(c, pyo.Var) else None) for k in c}
        return s

    def solve(self, m, *a, **k):
        self.n += 1
        before = self.snap(m)
        res = SolverResults()
        if self.n == self.fail_at:
            res.solver.status = SolverStatus.warning
            res.solver.termination_condition = self.condition
            self.log.append((before, None, m))
            return res
        i = 0
        for c in m.component_objects(pyo.Var):
            for key in c:
                i += 1
                if not c[key].fixed:
                    c[key].set_value(c[key].value + self.step * ((i * 7 + self.n * 3) % 5 + 1) / 5)
        self.log.append((before, self.snap(m), m))
        res.solver.status = SolverStatus.ok
        res.solver.termination_condition = TerminationCondition.optimal
        return res


def install(**kw):
    f = Fake(**kw)
    from tvemoves_rufbad import simulation
    simulation.pyo = type("P", (), {"__getattr__": lambda s, n: getattr(pyo, n)})()
    pyo_mod = pyo

    class F:
        def __call__(self, *a, **k):
            return f
    simulation.pyo.SolverFactory = F()
    pyo_mod.SolverFactory = F()
    return f
