#!/opt/venv/bin/python
"""writes sa/libs.json: the public names of the libraries the package is written against
(run once with the interpreter of the repository's environment; nothing of the package is imported)"""
import builtins
import importlib
import inspect
import json
import pathlib

MODS = """numpy numpy.linalg numpy.typing numpy.random numpy.polynomial numpy.polynomial.legendre numpy.polynomial.polynomial
numpy.ma numpy.testing numpy.lib numpy.fft
matplotlib matplotlib.pyplot matplotlib.patches matplotlib.animation matplotlib.collections matplotlib.tri matplotlib.axes
matplotlib.figure matplotlib.colors matplotlib.cm matplotlib.lines matplotlib.ticker matplotlib.path matplotlib.transforms
pyomo pyomo.environ pyomo.opt pyomo.core pyomo.core.base pyomo.core.expr pyomo.core.base.var pyomo.core.base.param
pyomo.core.expr.numvalue pyomo.core.expr.current pyomo.common pyomo.dae pyomo.kernel
sympy sympy.core sympy.core.expr sympy.core.symbol sympy.matrices sympy.utilities sympy.utilities.lambdify sympy.functions
tqdm tqdm.auto tqdm.notebook
math cmath itertools functools collections collections.abc dataclasses abc typing copy operator enum warnings contextlib logging
os os.path sys time random json pathlib types numbers fractions decimal statistics re string io textwrap heapq bisect weakref
inspect datetime tempfile pprint array queue struct traceback typing_extensions shutil subprocess threading uuid secrets
hashlib pickle csv platform gc argparse glob""".split()


def sig(o):
    try:
        s = inspect.signature(o)
    except (TypeError, ValueError):
        return None
    pos, kw, req, va, vk, reqkw = [], [], 0, False, False, []
    for p in s.parameters.values():
        if p.kind is p.VAR_POSITIONAL:
            va = True
        elif p.kind is p.VAR_KEYWORD:
            vk = True
        elif p.kind is p.KEYWORD_ONLY:
            kw.append(p.name)
            if p.default is p.empty:
                reqkw.append(p.name)
        else:
            pos.append(p.name if p.kind is p.POSITIONAL_OR_KEYWORD else "")
            req += p.default is p.empty
    return [pos, kw, req, va, vk, reqkw]


SIGS = {"numpy", "numpy.linalg", "numpy.polynomial.legendre", "matplotlib.pyplot", "matplotlib.patches", "matplotlib.animation",
        "matplotlib.tri", "math", "copy", "functools", "dataclasses"}
mods, sigs, attrs = {}, {}, set()
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except Exception:
        continue
    mods[m] = sorted(dir(mod))
    for n in dir(mod):
        try:
            o = getattr(mod, n)
        except Exception:
            continue
        if m in SIGS and callable(o) and not n.startswith("_") and getattr(o, "__module__", "").split(".")[0] == m.split(".")[0]:
            s = sig(o)
            if s is not None and not (s[3] and s[4]):
                sigs[m + "." + n] = s
        if isinstance(o, type):
            attrs.update(dir(o))
for n in dir(builtins):
    o = getattr(builtins, n)
    attrs.update(dir(o))
import matplotlib  # noqa: E402
matplotlib.use("Agg")
from matplotlib import pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pyomo.environ as pyo  # noqa: E402
import sympy as sp  # noqa: E402
from tqdm import tqdm  # noqa: E402
fig, ax = plt.subplots()
m = pyo.ConcreteModel()
m.i = pyo.RangeSet(3)
m.v = pyo.Var(m.i, bounds=(0, 1), initialize=1)
m.w = pyo.Var()
m.p = pyo.Param(m.i, initialize=1, mutable=True)
m.q = pyo.Param(initialize=1, mutable=True)
m.c = pyo.Constraint(expr=m.w + m.v[1] ** 2 <= 1)
m.cl = pyo.ConstraintList()
m.o = pyo.Objective(expr=m.w)
m.e = pyo.Expression(expr=m.w)
m.s = pyo.Suffix()
s = pyo.SolverFactory("ipopt")
from pyomo.opt import SolverResults, ProblemFormat  # noqa: E402
r = SolverResults()
x = sp.Symbol("x")


def gen():
    yield 1


objs = [fig, ax, ax.plot([0], [0])[0], ax.tripcolor([0, 1, 0], [0, 0, 1], [1, 1, 1], triangles=[(0, 1, 2)]), ax.scatter([0], [0]),
        fig.canvas, ax.xaxis, ax.spines, ax.transData, matplotlib.patches.Rectangle((0, 0), 1, 1), ax.get_position(),
        matplotlib.animation.FuncAnimation(fig, lambda i: None, frames=1), fig.colorbar(ax.tripcolor([0, 1, 0], [0, 0, 1], [1., 2, 3])),
        np.zeros(3), np.float64(1), np.int64(1), np.bool_(True), np.dtype(float), np.random.default_rng(0), np.nditer([1]), np.add,
        m, m.i, m.v, m.v[1], m.w, m.p, m.p[1], m.q, m.c, m.cl, m.o, m.e, m.s, m.w + 1, m.w ** 2, m.w <= 1, pyo.exp(m.w), s, s.options,
        r, r.solver, r.problem, r.solver.termination_condition, r.solver.status, pyo.TerminationCondition.optimal, m.v.index_set(),
        x, x + 1, sp.exp(x), sp.Matrix([[1, x]]), sp.Integer(1), sp.Rational(1, 2), x < 1, sp.lambdify(x, x),
        tqdm(range(0)), gen(), gen, iter([]), {}.items(), {}.keys(), {}.values(), open(__file__), 1, 1.0, "", b"", [], {}, set(), (), range(1),
        Exception(), KeyError(), property(), staticmethod(gen), classmethod(gen), object(), type, slice(1), (1).__add__, "".join,
        __import__("functools").lru_cache(gen), __import__("functools").partial(gen), inspect, inspect.signature(gen)]
for o in objs:
    attrs.update(dir(o))
classes = {"ax": type(ax), "fig": type(fig), "matplotlib.animation.FuncAnimation()": matplotlib.animation.FuncAnimation,
           "matplotlib.patches.Rectangle()": matplotlib.patches.Rectangle}
methods = {}
for k, c in classes.items():
    methods[k] = {}
    for n in dir(c):
        f = inspect.getattr_static(c, n)
        g = getattr(c, n)
        s = sig(g) if callable(g) and not n.startswith("__") else None
        if s is not None and not isinstance(f, (staticmethod, classmethod)) and s[0]:
            s = [s[0][1:], s[1], max(0, s[2] - 1), s[3], s[4], s[5]]
        methods[k][n] = None if s is None or (s[3] and s[4]) else s
exprs = [m.w + 1, m.w ** 2, m.w * m.p[1], pyo.exp(m.w), m.w <= 1, m.w == 1]
kinds = {"array": [np.zeros(3)], "number": [1, 1.0, True, np.float64(1), np.int64(1), np.bool_(True), m.v[1], m.w, m.p[1], m.q, x, x + 1,
                                             sp.exp(x), sp.Integer(1), x < 1, m.o, m.e] + exprs,
         "model": [m], "component": [m.i, m.v, m.p, m.c, m.cl, m.o, m.e, m.s, m.w, m.q, m.c[None] if m.c.is_indexed() else m.c, m.v.index_set(), m.i * m.i],
         "matrix": [sp.Matrix([[1, x]]), sp.ImmutableMatrix([[1, x]]), sp.Array([[1, x]])],
         "str": [""], "tuple": [()], "list": [[]], "dict": [{}, __import__("collections").defaultdict(list), __import__("collections").OrderedDict()],
         "set": [set(), frozenset()], "iterator": [gen(), iter([]), iter({}), enumerate([]), zip(), map(str, []), {}.items(), {}.keys(), {}.values(), range(1)],
         "function": [gen, sig, len, "".join, [].append, __import__("functools").lru_cache(gen), __import__("functools").partial(gen),
                      sp.lambdify(x, x), np.add, p_method if (p_method := pathlib.Path().exists) else None],
         "class": [type, object, int, pathlib.Path, Exception, __import__("enum").Enum]}
objects = {k: sorted({a for o in os_ for a in dir(o)}) for k, os_ in kinds.items()}
out = {"objects": objects, "methods": methods, "modules": mods, "signatures": sigs, "attributes": sorted(a for a in attrs if isinstance(a, str))}
p = pathlib.Path(__file__).resolve().parents[1] / "sa" / "libs.json"
p.write_text(json.dumps(out, separators=(",", ":"), sort_keys=True) + "\n")
print(len(mods), len(sigs), len(attrs), p.stat().st_size)
