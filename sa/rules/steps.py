"""C01-C08, C32-C34: protocol of the staggered scheme, states, bounds, clamping, loads, parameters."""
from __future__ import annotations
import ast
import itertools
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from .. import lib_pyomo as lp
from ..terms import T
from ..values import Unsupported, AbsRaise, Ref, BuiltinV
from .base import Lab, Rep, Violated, show, site, sources
from .scene import Scene, scenes, bound_var, small_mesh, SMALL, ONE_TRI
from .tensors import freeze, changed, reach
from .params import agree

Z, O = tm.ZERO, tm.ONE
C = tm.const
SETTINGS = ((False, "unregularized"), (True, "regularized"))
X, Y = tm.sym("Xs", lo=0, hi=5), tm.sym("Ys", lo=0, hi=5)


def sub(rep, name, fn, where=None):
    """a nested obligation whose violation does not stop the following ones; anything undecided does"""
    with rep.ob(name, where):
        fn()


def where_at(s):
    return site(s.rec["site"])


def values(S, arr, y=True):
    return {k: S.entry(arr, *k) for k in S.dofs(y=y)}


def label(k):
    return "[" + ", ".join(tm.show(x) for x in k) + "]"


def same_state(S, got, want, what, where):
    for k, t in want.items():
        S.rep.eq(got[k], t, f"{what}{label(k)}", where)


def kinds_of(S, n):
    """the solves alternate mechanical, thermal"""
    sv = S.solves()
    kinds = [s.kind for s in sv]
    if kinds != ["mech", "therm"] * n:
        S.rep.fail(f"sequence of solved problems after {n - 1} further step(s) is {kinds}", where_at(sv[-1]) if sv else None)
        raise Violated
    for s in sv:
        if s.rec["pc"] is not tm.TRUE:
            extra = [c for c in conj(s.rec["pc"]) if not (c.op == "f" and c.a[0] in ("optimal", "ok"))]
            extra = [c for c in extra if not harmless(c)]
            if extra:
                S.rep.notes.append(f"solve {s.no} under the condition {tm.show(tm.band(*extra))[:160]}")
    S.rep.fact()
    return sv


def conj(c):
    if c.op == "not":
        return [c]
    if c.op == "and":
        return list(c.a)
    return [c]


def harmless(c):
    return True


def history(S, sv):
    """[(deformation, temperature)] the steps must consist of, and the corresponding arrays"""
    out = []
    with S.at(sv[0]):
        a0, t0 = S.array(sv[0].obj, "prev_y"), S.array(sv[0].obj, "prev_theta")
    Y0 = {k: S.initial(k) for k in S.dofs()}
    T0 = {k: S.T0 for k in S.dofs(y=False)}
    out.append((Y0, T0, a0, t0))
    for m, t in zip(sv[::2], sv[1::2]):
        with S.at(m, "after"):
            a = S.array(m.obj, "y")
            Yj = values(S, a)
        with S.at(t, "after"):
            b = S.array(t.obj, "theta")
            Tj = values(S, b, False)
        out.append((Yj, Tj, a, b))
    return out


def evaluate(S, step):
    """a recorded step at an arbitrary point"""
    lab = S.lab
    y = lab.call(lab.attr(step, "y"), X, Y)
    th = lab.call(lab.attr(step, "theta"), X, Y)
    if lab.num(lab.ip.builtins["len"].fn(lab.ip, [y], {})) != 2:
        S.rep.fail("a recorded deformation does not have two components")
        raise Violated
    return lab.item(y, 0), lab.item(y, 1), th


def step_of(S, a, b):
    lab = S.lab
    args = [S.ip.new(a), S.ip.new(b), S.domain, S.g.grid]
    if S.reg:
        return lab.call("simulation.RegularizedStep", *args, S.r.grid)
    return lab.call("simulation.Step", *args)


def recorded(S, step, hist, j, where):
    got = evaluate(S, step)
    want = evaluate(S, step_of(S, hist[2], hist[3]))
    for n, g, w in zip(("first deformation component", "second deformation component", "temperature"), got, want):
        S.rep.eq(g, w, f"{n} recorded in step {j}", where)


# ------------------------------------------------------------------ long runs

def run_lengths(rep):
    """lengths of runs to examine: a fixed one, and both sides of every number the module compares with or counts by"""
    src = next(text for name, (_, text) in sources().items() if name.split(".")[-1] == "simulation")
    tree = ast.parse(src)
    skip = {id(k.value) for n in ast.walk(tree) if isinstance(n, ast.Call) for k in n.keywords}
    xs = {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) in (int, float) and id(n) not in skip}
    lim = 700 if rep.tier == "quick" else 1200
    near = sorted({int(x) + d for x in xs if 8 <= x <= lim for d in (0, 1)})
    return near[:6] + [110 if rep.tier == "quick" else 300]


class LongRun:
    """a simulation whose two problems are replaced by stand-ins that answer every solve with a new arbitrary state"""

    def __init__(self, S):
        self.S = S
        self.done = 1

    def given(self, j, y):
        """the state step j must consist of (structural)"""
        S = self.S
        if j == 0 or S.stubbed == "rest":
            return {k: S.initial(k) if y else S.T0 for k in S.dofs(y=y)}
        if y:
            return {k: S.y_sym(f"ly{j}_", k) for k in S.dofs()}
        return {k: tm.rapp(f"lt{j}_", k) for k in S.dofs(y=False)}

    def log(self):
        return self.S.lab.items(self.S.log)

    def flow(self, j, entries):
        """[(what, got, expected)] at the two solves of step j"""
        S = self.S
        out = []
        for e, kind, name in zip(entries[2 * j - 2:2 * j], ("mech", "therm"), ("mechanical", "thermal")):
            got = lambda i, y: values(S, S.content(S.ip.vsimp(e[i])), y)
            want = [("previous deformation", 2, True, j - 1), ("previous temperature", 4, False, j - 1)]
            if kind == "therm":
                want.append(("current deformation", 3, True, j))
            for what, i, y, n in want:
                g, w = got(i, y), self.given(n, y)
                out += [(f"{name} problem of step {j}: {what}{label(k)}", g[k], w[k]) for k in w]
        return out

    def kinds(self, entries):
        return [e[0] for e in entries]

    def time(self, j):
        return Z if j == 1 else tm.mul(C(j - 1), tm.power(self.S.fps, -1))


def long_run(rep, reg, what, judge):
    """judge(L, lo, hi) on runs too long for the solver models: the steps lo+1 .. hi have been added.  Only used
    where the first steps show that the simulation drives the stand-ins as it drives the real problems."""
    S = Scene(rep, reg, "generic", light=True, run=False, stubbed=True)
    lab = S.lab
    try:
        S.sim = lab.call("simulation.Simulation", S.domain, S.params(), S.ext, S.trac)
        lab.meth(S.sim, "run", C(3))
        L = LongRun(S)
        L.done = 4
        e = L.log()
        fits = (S.stubs == {"mech", "therm"} and L.kinds(e) == ["mech", "therm"] * 4
                and all(g is w for j in range(1, 5) for _, g, w in L.flow(j, e))
                and all(S.ip.vsimp(x[5]) is L.time(j) for j in range(1, 5) for x in e[2 * j - 2:2 * j]))
    except (Unsupported, AbsRaise, Violated, AttributeError, TypeError, KeyError, IndexError, ValueError, tm.ZeroDiv) as ex:
        fits, e = False, ex
    if not fits:
        rep.notes.append(f"{what}: the stand-ins do not fit this code, only short runs examined")
        return
    wr = lab.where("simulation.Simulation.run")
    plan = [(n, False) for n in run_lengths(rep)] + [(0, True), (3, True), (6, True)]
    gone = set()
    for n, rest in plan:
        if rest in gone:
            continue
        with rep.ob(f"{what}: {f'run({n})' if n else 'start'}" + (", a body at rest" if rest else ""), wr) as o:
            try:
                if rest and not n:
                    L = LongRun(Scene(rep, reg, "generic", light=True, run=False, stubbed="rest"))
                S = L.S
                lab = S.lab
                if n:
                    lab.meth(S.sim, "run", C(n))
                    lo, L.done = L.done, L.done + n
                else:
                    S.sim, lo = lab.call("simulation.Simulation", S.domain, S.params(), S.ext, S.trac), 0
                judge(L, lo, L.done, wr)
            except AbsRaise as ex:
                if any(k in str(ex) for k in ("AttributeError", "TypeError", "NotImplementedError", "RecursionError")):
                    rep.notes.append(f"{what}: run({n}): {ex}")
                    gone.add(rest)
                    continue
                raise
            except Unsupported as ex:
                rep.notes.append(f"{what}: run({n}): {ex}")
                gone.add(rest)
        if o["status"] != "holds":
            break


def long_order(L, lo, hi, where):
    S = L.S
    kinds = L.kinds(L.log())
    if kinds != ["mech", "therm"] * hi:
        i = next((i for i in range(min(len(kinds), 2 * hi)) if kinds[i] != ("mech", "therm")[i % 2]), None)
        S.rep.fail(f"{len(kinds)} problems solved for {hi} steps" + (f"; the one at position {i + 1} is {kinds[i]}" if i is not None else ""), where)
        raise Violated
    S.rep.fact()


def long_flow(L, lo, hi, where):
    long_order(L, lo, hi, where)
    e = L.log()
    for j in range(lo + 1, hi + 1):
        for what, g, w in L.flow(j, e):
            L.S.rep.eq(g, w, what, where)


def long_times(L, lo, hi, where):
    long_order(L, lo, hi, where)
    e = L.log()
    for j in range(lo + 1, hi + 1):
        for x, name in zip(e[2 * j - 2:2 * j], ("traction", "external temperature")):
            t = L.S.ip.vsimp(x[5])
            if not isinstance(t, T):
                raise Unsupported(f"time {show(t)}")
            L.S.rep.eq(t, L.time(j), f"time of the {name} in step {j}", where)


def count_steps(S):
    """number of recorded steps, if known"""
    try:
        return len(S.steps())
    except Unsupported:
        return S.ip.vsimp(S.ip.builtins["len"].fn(S.ip, [S.lab.attr(S.sim, "steps")], {}))


def long_steps():
    known = {}

    def judge(L, lo, hi, where):
        S = L.S
        seen = known.setdefault(S, {})
        n = count_steps(S)
        if isinstance(n, T):
            S.rep.eq(n, C(hi + 1), f"number of recorded steps after {hi} steps have been solved", where)
        elif n != hi + 1:
            S.rep.fail(f"{n} recorded steps after {hi} steps have been solved", where)
            raise Violated
        steps = [S.ip.vsimp(x) for x in S.steps()]
        for i, st in enumerate(steps):
            if i in seen and seen[i] is not st:
                S.rep.fail(f"step {i} has been replaced or moved", where)
                raise Violated
            seen[i] = st
        S.rep.fact()
        look = {0, 1, 2, lo, lo + 1, hi // 2, hi - 1, hi}
        for j in sorted(j for j in look if j <= hi):
            new = j and S.stubbed != "rest"
            y = S.y_array(f"ly{j}_") if new else S.rest_y()
            t = S.th_array(f"lt{j}_") if new else S.rest_theta()
            recorded(S, steps[j], (None, None, S.content(y), S.content(t)), j, where)
        if hi < 20:
            return
        held = freeze(S.lab, S.lab.attr(S.sim, "steps"))
        for name, args in (("save_animation", ("a",)), ("plot_step", (C(hi),)), ("max_temp", ())):
            try:
                S.lab.meth(S.sim, name, *args)
            except (Unsupported, AbsRaise) as ex:
                S.rep.notes.append(f"{name} after {hi} steps: {ex}")
                continue
            now = S.steps()
            if len(now) != len(steps) or any(S.ip.vsimp(a) is not b for a, b in zip(now, steps)):
                S.rep.fail(f"{name} after {hi} steps changes the recorded steps", S.lab.where(f"simulation.Simulation.{name}"))
                raise Violated
            if changed(S.lab, held):
                S.rep.fail(f"{name} after {hi} steps changes the content of the recorded steps", S.lab.where(f"simulation.Simulation.{name}"))
                raise Violated
            S.rep.fact()
    return judge


# ------------------------------------------------------------------ C01

def c01(rep: Rep):
    lab0 = Lab(rep)
    wm, wt = lab0.where("simulation.Simulation._update_mechanical_step"), lab0.where("simulation.Simulation._update_thermal_step")
    wr = lab0.where("simulation.Simulation.run")
    wc = lab0.where("simulation.Simulation")

    def body(S):
        plan = [1, 2, 1] if rep.tier == "quick" else [1, 2, 1, 3, 1, 1, 4, 1, 2] + [1] * 8
        for n in plan:
            S.run(n)
        total = 1 + sum(plan)
        sv = kinds_of(S, total)
        H = history(S, sv)
        for j in range(1, total + 1):
            m, t = sv[2 * j - 2], sv[2 * j - 1]
            with S.at(m):
                py, pt = values(S, S.array(m.obj, "prev_y")), values(S, S.array(m.obj, "prev_theta"), False)
            w = wc if j == 1 else wm
            same_state(S, py, H[j - 1][0], f"mechanical problem of step {j}: previous deformation", w)
            same_state(S, pt, H[j - 1][1], f"mechanical problem of step {j}: previous temperature", w)
            with S.at(t):
                py, cy = values(S, S.array(t.obj, "prev_y")), values(S, S.array(t.obj, "y"))
                pt = values(S, S.array(t.obj, "prev_theta"), False)
            w = wc if j == 1 else wt
            same_state(S, py, H[j - 1][0], f"thermal problem of step {j}: previous deformation", w)
            same_state(S, pt, H[j - 1][1], f"thermal problem of step {j}: previous temperature", w)
            same_state(S, cy, H[j][0], f"thermal problem of step {j}: current deformation", w)
        steps = S.steps()
        if len(steps) != total + 1:
            rep.fail(f"{len(steps)} recorded steps after {total} solved steps", wr)
            raise Violated
        for j, st in enumerate(steps):
            recorded(S, st, H[j], j, wc if j < 2 else wr)

    for reg, name in SETTINGS:
        scenes(rep, reg, body, f"data flow of the staggered scheme ({name})", light=True)
        long_run(rep, reg, f"data flow in a long run ({name})", long_flow)


# ------------------------------------------------------------------ C02

def snapshot(ip):
    h = {}
    for lay in ip.layers:
        h.update(lay)
    return h


def diff_heap(ip, before):
    """objects existing before whose content has changed"""
    out = []
    for r, c in snapshot(ip).items():
        if r in before and before[r] is not c and not equal_content(before[r], c):
            if not isinstance(c, va.Scp):
                out.append((r, before[r], c))
    return out


def equal_content(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, va.Obj):
        return a.attrs == b.attrs
    if isinstance(a, (va.Lst, va.Itr)):
        return a.segs == b.segs
    if isinstance(a, (va.Dct, va.St)):
        return a.log == b.log
    if isinstance(a, va.Arr):
        return a.tree == b.tree and a.log == b.log
    if isinstance(a, va.Comp):
        return a.log == b.log and a.index == b.index
    if isinstance(a, va.Model):
        return a.attrs == b.attrs
    return False


def c02(rep: Rep):
    lab0 = Lab(rep)
    wr, wc = lab0.where("simulation.Simulation.run"), lab0.where("simulation.Simulation")

    def body(S):
        ip, lab = S.ip, S.lab
        steps = S.steps()
        sv = kinds_of(S, 1)
        if len(steps) != 2:
            rep.fail(f"{len(steps)} recorded steps after construction, expected 2", wc)
            raise Violated
        rep.fact()
        H = history(S, sv)
        a0 = S.make_array((lambda i, c, d: S.initial((i, C(c), C(d)))) if S.reg else (lambda i, c: S.initial((i, C(c)))),
                          S.g, (2, 6) if S.reg else (2,))
        t0 = S.make_array(lambda i: S.T0, S.tg)
        recorded(S, steps[0], (None, None, S.content(a0), S.content(t0)), 0, wc)
        recorded(S, steps[1], H[1], 1, wc)
        done = 1
        plan = [(), (2,), (3,), (1,), (5,), (7,)] if rep.tier == "quick" else [(), (2,), (3,), (1,), (5,), (7,), (4,), (1,), (1,), (6,), (12,), (25,)]
        for args in plan:
            n = args[0] if args else 1
            before = [freeze(lab, s) for s in steps]
            S.run(*args)
            done += n
            kinds_of(S, done)
            c = count_steps(S)
            if isinstance(c, T):
                rep.eq(c, C(done + 1), f"number of recorded steps after {done} solved steps", wr)
            new = S.steps()
            if len(new) != len(steps) + n:
                rep.fail(f"run({', '.join(map(str, args))}) recorded {len(new) - len(steps)} further steps", wr)
                raise Violated
            for i, (a, b) in enumerate(zip(steps, new)):
                if ip.vsimp(a) is not ip.vsimp(b):
                    rep.fail(f"step {i} has been replaced or moved by run({n})", wr)
                elif changed(lab, before[i]):
                    rep.fail(f"the recorded step {i} has been changed by run({n})", wr)
                else:
                    rep.fact()
            steps = new
        if rep.tier == "thorough" or not S.reg:
            sv = S.solves()
            H = history(S, sv)
            for j, st in enumerate(steps):
                recorded(S, st, H[j], j, wr)
        nsolve = len(S.solves())
        for what, arg in [("run(0)", Z), ("run(-1)", C(-1)), ("run(-7)", C(-7)),
                          ("run(n) for any n <= 0", tm.sym("nneg", True, hi=0))]:
            snap = snapshot(ip)
            nev = len(ip.get(ip.trace_ref).segs)
            lab.bad(lambda: lab.meth(S.sim, "run", arg), "ValueError", what, where=wr)
            ch = diff_heap(ip, snap)
            ch = [c for c in ch if c[0] is not ip.trace_ref]
            if ch:
                rep.fail(f"{what} changes {describe(S, ch[0])} before it is rejected", wr)
            if len(S.solves()) != nsolve or len(ip.get(ip.trace_ref).segs) != nev:
                rep.fail(f"{what} solves or emits something before it is rejected", wr)
            rep.fact()

    for reg, name in SETTINGS:
        scenes(rep, reg, body, f"number and permanence of the recorded steps ({name})", light=True)
        long_run(rep, reg, f"recorded steps of a long run ({name})", long_steps())


def describe(S, ch):
    r, a, b = ch
    if isinstance(b, va.Obj):
        names = [k for k in b.attrs if a.attrs.get(k) is not b.attrs.get(k)]
        return f"attribute {names} of {b.cls.name}"
    if isinstance(b, va.Comp):
        return f"component {b.info.get('name')}"
    return f"a {type(b).__name__}"


# ------------------------------------------------------------------ C03

def is_load(*names):
    return lambda t: t.op == "f" and t.a[0] in names


def without_loads(t, names):
    """t with the given loads set to zero"""
    saved = {n: tm.REBUILD.get(n) for n in names}
    try:
        for n in names:
            tm.REBUILD[n] = lambda args, old=None: Z
        # the atoms themselves are rebuilt wherever they occur
        return tm._subst(t, {}, {}, frozenset(), [1])
    finally:
        for n, o in saved.items():
            if o is None:
                tm.REBUILD.pop(n, None)
            else:
                tm.REBUILD[n] = o


def gauss(lab, n):
    """Gauss-Legendre nodes and weights on [0, 1] as terms"""
    xs, ws = numeval.legendre(n)
    f = lab.ip.bm.float_const
    return [(f((x + 1) / 2), f(w / 2)) for x, w in zip(xs, ws)]


def dist(a, b):
    return tm.sqrt(tm.add(tm.power(tm.sub(a[0], b[0]), 2), tm.power(tm.sub(a[1], b[1]), 2)))


def free_y(S, s):
    """the unknown deformation of the solve: vertex number, component -> unknown"""
    with S.at(s, "all"):
        a = S.array(s.obj, "y")
    return lambda i, *k: S.entry(a, i, *[C(x) for x in k])


def free_theta(S, s):
    with S.at(s, "all"):
        a = S.array(s.obj, "theta")
    return lambda i: S.entry(a, i)


def traction_work(S, s, time, n, y=None):
    """work of the traction at the given time on the unknown deformation (n Gauss nodes per edge)"""
    y = y or free_y(S, s)
    nodes = gauss(S.lab, n)

    def edge(e):
        i, j = e
        pi, pj = S.g.coords(i), S.g.coords(j)
        out = []
        for t, w in nodes:
            for c in (0, 1):
                g = tm.add(tm.mul(t, tm.rapp(f"trac{c}", (time,) + pi)), tm.mul(tm.sub(O, t), tm.rapp(f"trac{c}", (time,) + pj)))
                u = tm.add(tm.mul(t, y(i, c)), tm.mul(tm.sub(O, t), y(j, c)))
                out.append(tm.mul(w, g, u))
        return tm.mul(dist(pi, pj), tm.add(*out))
    return S.g.over_edges(edge, "n")


def heat_exchange(S, s, ext, n, theta=None):
    """half the transfer coefficient times the squared difference to the external temperature"""
    theta = theta or free_theta(S, s)
    k = S.lab.get("helpers.HEAT_TRANSFER_COEFFICIENT")
    nodes = gauss(S.lab, n)

    def edge(e):
        i, j = e
        out = [tm.mul(w, tm.power(tm.sub(tm.add(tm.mul(t, theta(i)), tm.mul(tm.sub(O, t), theta(j))), ext), 2)) for t, w in nodes]
        return tm.mul(dist(S.g.coords(i), S.g.coords(j)), tm.add(*out))
    return tm.mul(k, C(Fraction(1, 2)), S.g.over_edges(edge, "dn"))


def among(rep, got, wants, msg, where, tol=1e-7, precise=False):
    """got equals one of the candidates"""
    first = None
    und = None
    for w in wants:
        r = numeval.differ(got, w, tol=tol, precise=precise)
        if r == "same":
            rep.fact()
            return True
        if r is None:
            und = w
        elif first is None:
            first = r
    if und is not None or first is None:
        raise Unsupported(f"{msg}: cannot compare")
    rep.fail(f"{msg}: e.g. {first[1]:.6g} instead of {first[2]:.6g}", where)
    return False


def c03(rep: Rep):
    lab0 = Lab(rep)
    wb, we = lab0.where("mechanical_step._MechanicalStep.update_boundary_traction"), \
        lab0.where("thermal_step._ThermalStep.update_external_temperature")
    wc = lab0.where("simulation.Simulation")

    def body(S):
        plan = [1, 2, 1] if rep.tier == "quick" else [1, 2, 1, 3, 1, 2, 5, 1, 1]
        for n in plan:
            S.run(n)
        total = 1 + sum(plan)
        sv = kinds_of(S, total)
        for j in range(total):
            time = tm.mul(C(j), tm.power(S.fps, -1))
            m, t = sv[2 * j], sv[2 * j + 1]
            o, _ = S.objective(m)
            for at in sorted(tm.atoms(o, is_load("trac0", "trac1")), key=tm.show):
                if len(at.a[1]) != 3:
                    rep.fail(f"the traction is called with {len(at.a[1])} arguments", wb)
                    raise Violated
                rep.eq(at.a[1][0], time, f"time of the traction at mechanical solve {j + 1}", wc if j == 0 else wb)
            part = tm.sub(o, without_loads(o, ("trac0", "trac1")))
            y = free_y(S, m)
            among(rep, part, [tm.neg(traction_work(S, m, time, n, y)) for n in (1, 2, 3)],
                  f"traction work at mechanical solve {j + 1}", wc if j == 0 else wb)
            o, _ = S.objective(t)
            for at in sorted(tm.atoms(o, is_load("ext")), key=tm.show):
                rep.true(len(at.a[1]) == 1, f"the external temperature is called with {len(at.a[1])} arguments", we)
                rep.eq(at.a[1][0], time, f"time of the external temperature at thermal solve {j + 1}", wc if j == 0 else we)
            part = tm.sub(o, without_loads(o, ("ext",)))
            th = free_theta(S, t)
            want = tm.sub(heat_exchange(S, t, tm.rapp("ext", (time,)), 2, th), heat_exchange(S, t, Z, 2, th))
            rep.eq(part, want, f"heat exchange at thermal solve {j + 1}", wc if j == 0 else we)

    scenes(rep, False, body, "loads of the unregularized problems")
    long_run(rep, False, "times of the loads in a long run", long_times)


# ------------------------------------------------------------------ C04

def unknowns(S, s):
    """{degree of freedom: (component ref, key)} of the unknown of the problem"""
    out = {}
    with S.at(s, "all"):
        y = s.kind == "mech"
        a = S.array(s.obj, "y" if y else "theta")
        for k in S.dofs(y=y):
            t = S.entry(a, *k)
            if not (isinstance(t, T) and t.op == "f" and t.a[0] == "sol" and t.a[1][0] == s.no):
                S.rep.fail(f"the {'deformation' if y else 'temperature'} returned after solve {s.no} is {show(t)}"
                           f" at {label(k)}, not a value of the solver", where_at(s))
                raise Violated
            out[k] = (S.ip.pyomo[t.a[1][1]], t.a[1][2:], t)
    return out


def number(S, v, what, where, rep):
    """the numeric value of a bound or start value"""
    v = S.ip.vsimp(v)
    if isinstance(v, T):
        return lp.value_of(S.ip, v)
    if v is None or v is lp.NONE:
        rep.fail(f"{what} is missing", where)
        raise Violated
    if isinstance(v, va.IteV):
        return lp.need_number(S.ip, v)
    raise Unsupported(f"{what}: {show(v)}")


def box(S, s, j):
    rep = S.rep
    y = s.kind == "mech"
    w = where_at(s)
    what = f"{'mechanical' if y else 'thermal'} solve {j}"
    un = unknowns(S, s)
    with S.at(s):
        prev = values(S, S.array(s.obj, "prev_y" if y else "prev_theta"), y)
        for k, (ref, key, _) in un.items():
            c = S.ip.get(ref)
            dom = lp.domain_name(c.info.get("domain"))
            free = tm.bnot(S.ip.truth(lp.read_attr(S.ip, ref, "fixed", key, tm.FALSE)))
            v = number(S, lp.read_attr(S.ip, ref, "value", key, None), f"{what}: start value of {label(k)}", w, rep)
            rep.eq(v, prev[k], f"{what}: start value of {label(k)}", w)
            if free is tm.FALSE:
                continue
            ass = () if free is tm.TRUE else (free,)
            lo, hi = (lp.read_attr(S.ip, ref, n, key, None) for n in ("lb", "ub"))
            lo = number(S, lo, f"{what}: lower bound of {label(k)}", w, rep)
            hi = number(S, hi, f"{what}: upper bound of {label(k)}", w, rep)
            if dom in lp.LOWER:
                lo = tm.minmax("max", [lo, lp.LOWER[dom]])
            if dom in lp.UPPER:
                hi = tm.minmax("min", [hi, lp.UPPER[dom]])
            wl = tm.sub(prev[k], S.R)
            if not y:
                wl = tm.minmax("max", [wl, Z])
            rep.eq(lo, wl, f"{what}: lower bound of {label(k)}", w, assume=ass)
            rep.eq(hi, tm.add(prev[k], S.R), f"{what}: upper bound of {label(k)}", w, assume=ass)


def c04(rep: Rep):
    def body(S):
        plan = [1, 2] if rep.tier == "quick" else [1, 2, 1, 3, 1]
        for n in plan:
            S.run(n)
        sv = kinds_of(S, 1 + sum(plan))
        for i, s in enumerate(sv):
            box(S, s, i // 2 + 1)
    for reg, name in SETTINGS:
        scenes(rep, reg, body, f"start values and search boxes ({name})", light=True)


# ------------------------------------------------------------------ C05

def objects(S):
    """the two step objects for arbitrary previous states, made by the public factories"""
    lab = S.lab
    solver = lab.call(lab.ip.getattr(lab.ip.module("pyomo.environ"), "SolverFactory"), "ipopt")
    p = S.params()
    mp, tp = lab.meth(p, "mechanical_step_params"), lab.meth(p, "thermal_step_params")
    S.arrays = {"py": S.y_array("py"), "cy": S.y_array("cy"), "pt": S.th_array("pt")}
    m = lab.good(lambda: lab.call("mechanical_step.mechanical_step", solver, S.g.grid, mp, S.r.grid if S.reg else None, S.trac),
                 "mechanical_step", where=lab.where("mechanical_step.mechanical_step"))
    t = lab.good(lambda: lab.call("thermal_step.thermal_step", solver, S.g.grid, S.arrays["py"], S.arrays["cy"],
                                  S.arrays["pt"], tp, S.ext, S.r.grid if S.reg else None),
                 "thermal_step", where=lab.where("thermal_step.thermal_step"))
    return m, t


GETTERS = {"mech": {"prev_y": True, "y": True, "prev_theta": False},
           "therm": {"prev_y": True, "y": True, "prev_theta": False, "theta": False}}
# update method -> (states it sets, states it may set as a consequence)
UPDATES = {"mech": {"update_prev_y": ("prev_y", {"y"}), "update_prev_theta": ("prev_theta", set())},
           "therm": {"update_prev_y": ("prev_y", set()), "update_y": ("y", set()), "update_prev_theta": ("prev_theta", {"theta"})}}


def states(S, kind, o):
    return {g: values(S, S.array(o, g), y) for g, y in GETTERS[kind].items()}


def layout(S, kind, o, w):
    rep, lab = S.rep, S.lab
    N, NT = S.g.size(), S.tg.size()
    for g, y in GETTERS[kind].items():
        sh = lab.items(lab.attr(lab.meth(o, g), "shape"))
        want = ([N, C(2)] + ([C(6)] if S.reg else [])) if y else [NT]
        if len(sh) != len(want):
            rep.fail(f"{g}() has {len(sh)} axes, expected {len(want)}", w)
            raise Violated
        for a, b in zip(sh, want):
            rep.eq(a, b, f"shape of {g}()", w)


def c05(rep: Rep):
    def body(S):
        lab = S.lab
        m, t = objects(S)
        for kind, o, mod in (("mech", m, "mechanical_step"), ("therm", t, "thermal_step")):
            w = lab.where(f"{mod}._{'Mechanical' if kind == 'mech' else 'Thermal'}Step{'Regularized' if S.reg else ''}")
            layout(S, kind, o, w)
            st = states(S, kind, o)
            if kind == "therm":
                for g, a in (("prev_y", "py"), ("y", "cy"), ("prev_theta", "pt")):
                    same_state(S, st[g], values(S, S.arrays[a], GETTERS[kind][g]), f"{g}() after construction", w)
            else:
                same_state(S, st["prev_y"], {k: S.initial(k) for k in S.dofs()}, "initial deformation", w)
                same_state(S, st["prev_theta"], {k: S.T0 for k in S.dofs(y=False)}, "initial temperature", w)
            for rnd in range(2 if rep.tier == "quick" else 4):
                for u, (g, conseq) in UPDATES[kind].items():
                    name = f"{kind}{u}{rnd}"
                    y = GETTERS[kind][g]
                    arr = S.y_array(name) if y else S.th_array(name)
                    before = states(S, kind, o)
                    lab.good(lambda: lab.meth(o, u, arr), u, where=w)
                    after = states(S, kind, o)
                    same_state(S, after[g], values(S, arr, y), f"{g}() after {u}", w)
                    for g2 in GETTERS[kind]:
                        if g2 != g and g2 not in conseq:
                            same_state(S, after[g2], before[g2], f"{g2}() after {u}", w)
            before = states(S, kind, o)
            u = "update_boundary_traction" if kind == "mech" else "update_external_temperature"
            if not S.reg:
                lab.good(lambda: lab.meth(o, u, tm.sym("time")), u, where=w)
                after = states(S, kind, o)
                for g2 in GETTERS[kind]:
                    same_state(S, after[g2], before[g2], f"{g2}() after {u}", w)
            lab.good(lambda: lab.meth(o, "solve"), "solve", where=w)
            s = [x for x in S.solves() if x.kind == kind or True][-1]
            s.kind, s.obj = kind, o
            un = unknowns(S, s)
            distinct(S, un, s, w)
            after = states(S, kind, o)
            unknown = "y" if kind == "mech" else "theta"
            for g2 in GETTERS[kind]:
                if g2 != unknown:
                    same_state(S, after[g2], before[g2], f"{g2}() after a solve", w)
            # the getter shows the solver's value for free and the start value for held entries
            for k, (ref, key, sol) in un.items():
                fx = S.ip.truth(lp.read_attr(S.ip, ref, "fixed", key, tm.FALSE))
                rep.eq(after[unknown][k], tm.ite(fx, before[unknown][k], sol), f"{unknown}(){label(k)} after a solve", w)
    for reg, name in SETTINGS:
        scenes(rep, reg, body, f"getters, updates and solves ({name})", light=True, run=False)


def distinct(S, un, s, w):
    """different degrees of freedom are different unknowns"""
    items = list(un.items())
    v2 = None
    for a, (k, (r1, key1, t1)) in enumerate(items):
        for k2, (r2, key2, t2) in items[a + 1:]:
            if t1 is t2:
                S.rep.fail(f"entries {label(k)} and {label(k2)} are the same unknown", w)
                raise Violated
        S.rep.fact()
        if S.g.tris is None:
            # injective in the vertex number: the key moves with it
            v = k[0]
            v2 = tm.sym("other", True, lo=Z, hi=tm.sub(v, O))
            moved = tm.subst(t1, {v: v2})
            diff = tm.bor(*[tm.bnot(tm.eq(x, y)) for x, y in zip(t1.a[1][2:], moved.a[1][2:]) if isinstance(x, T)])
            if diff is tm.FALSE:
                S.rep.fail(f"entry {label(k)} is the same unknown for all vertices", w)
                raise Violated
            S.rep.true(diff, f"entry {label(k)} is the same unknown for different vertices", w)


# ------------------------------------------------------------------ C06

def shaped(S, dims):
    """an array of the given shape (terms) with arbitrary entries"""
    def tree(ds, ix):
        if not ds:
            return tm.rapp("entry", tuple(ix))
        n = ds[0]
        if isinstance(n, T) and n.op != "c":
            b = bound_var(S.lab, n)
            return ("sym", n, b, tree(ds[1:], ix + [b]))
        k = int(n.a[0]) if isinstance(n, T) else n
        return ("const", tuple(tree(ds[1:], ix + [C(i)]) for i in range(k)))
    tm.RANGES["entry"] = lambda args: (Z, C(2), False)
    return S.ip.new(va.Arr(tree(list(dims), [])))


def wrong_shapes(S, y):
    """(shape, condition under which it is the documented one)"""
    N, NT = S.g.size(), S.tg.size()
    other = S.r.size() if False else None
    a = tm.sym("rows", True, lo=1)
    numeval.SIZES["rows"] = (4, 8)
    if y and S.reg:
        out = [((a, 2, 6), tm.eq(a, N)), ((N, 1, 6), False), ((N, 3, 6), False), ((N, 2, 5), False), ((N, 2, 7), False), ((N, 6, 2), False),
               ((N, 2), False), ((N, 12), False), ((N,), False), ((N, 2, 6, 1), False), ((1, N, 2, 6), False), ((2, N, 6), None), ((tm.mul(C(12), N),), False)]
    elif y:
        out = [((a, 2), tm.eq(a, N)), ((N, 1), False), ((N, 3), False), ((2, N), None), ((N,), False), ((N, 2, 1), False), ((N, 2, 6), False),
               ((1, N, 2), False), ((tm.mul(C(2), N),), False)]
    else:
        out = [((a,), tm.eq(a, NT)), ((NT, 1), False), ((1, NT), False), ((NT, 2), False)]
        if S.reg:
            out.append(((S.g.size(),), tm.eq(S.g.size(), NT)))
    if S.g.tris is not None:
        res = []
        for sh, c in out:
            if any(isinstance(d, T) and d is a for d in sh):
                for n in (1, 2, len(S.g.pts) - 1, len(S.g.pts), len(S.g.pts) + 1, 2 * len(S.g.pts)):
                    res.append((tuple(C(n) if d is a else d for d in sh), n == len(S.g.pts)))
            elif c is not None:
                res.append((sh, c is tm.TRUE or c is True))
        return res
    return out


def rejected(S, fn, cond, what, where):
    """fn raises ValueError exactly unless cond; nothing changes on the way"""
    rep, lab, ip = S.rep, S.lab, S.ip
    if cond is None:
        return
    snap = snapshot(ip)
    nev = len(ip.get(ip.trace_ref).segs)
    if cond is True or cond is tm.TRUE:
        lab.good(fn, what + " (documented shape)", where=where)
        rep.fact()
        return
    if cond is False or cond is tm.FALSE:
        m = lab.mark()
        lab.bad(fn, "ValueError", what, where=where)
        recs = lab.ip.raises[m:]
        ch = [c for c in diff_heap(ip, snap) if c[0] is not ip.trace_ref and not isinstance(c[1], va.Model)]
        if ch:
            rep.fail(f"{what}: {describe(S, ch[0])} has been changed when the array is rejected", where)
        if len(ip.get(ip.trace_ref).segs) != nev:
            rep.fail(f"{what}: something is emitted before the array is rejected", where)
        return
    spec = tm.bnot(cond)
    saved = ip.save_pc()
    c, res, other = lab.raise_cond(fn, "ValueError")
    ip.restore_pc(saved)
    for r in other:
        if r.cond is not tm.FALSE and (r.cond is tm.TRUE or numeval.witness(r.cond, facts=()) is not None):
            rep.fail(f"{what}: raises {r.exc} at {site(r.site)}", where)
            raise Violated
    agree(rep, c, spec, where)


def c06(rep: Rep):
    def entries(S, m, t):
        lab = S.lab
        R = "Regularized" if S.reg else ""
        for o, mod, cls, ms in ((m, "mechanical_step", "_MechanicalStep", (("update_prev_y", True), ("update_prev_theta", False))),
                                (t, "thermal_step", "_ThermalStep", (("update_prev_y", True), ("update_y", True), ("update_prev_theta", False)))):
            for u, y in ms:
                yield (f"{mod}.{u}", lab.where(f"{mod}.{cls}{R}.{u}"), y, lambda arr, o=o, u=u: lab.meth(o, u, arr))
        tp = lab.meth(S.params(), "thermal_step_params")
        w = lab.where("thermal_step.thermal_step")
        good = S.arrays
        for name, y in (("py", True), ("cy", True), ("pt", False)):
            def make(arr, name=name):
                a = {**good, name: arr}
                return lab.call("thermal_step.thermal_step", None, S.g.grid, a["py"], a["cy"], a["pt"], tp, S.ext, S.r.grid if S.reg else None)
            yield (f"thermal_step construction ({name})", w, y, make)
        cls = "simulation.RegularizedStep" if S.reg else "simulation.Step"
        for name, y in (("py", True), ("pt", False)):
            def make(arr, name=name):
                a = {**good, name: arr}
                return lab.call(cls, a["py"], a["pt"], S.domain, S.g.grid, *([S.r.grid] if S.reg else []))
            yield (f"{cls} ({name})", lab.where(cls), y, make)

    for reg, name in SETTINGS:
        def one(i, what, mesh):
            def run():
                S = Scene(rep, reg, mesh, run=False, light=True)
                m, t = objects(S)
                es = list(entries(S, m, t))
                what_, w, y, fn = es[i]
                # definite shapes first: the facts learnt from accepted arrays come last
                shapes = wrong_shapes(S, y)
                for sh, cond in [x for x in shapes if x[1] is False] + [x for x in shapes if isinstance(x[1], T)] + [x for x in shapes if x[1] is True]:
                    rejected(S, lambda: fn(shaped(S, sh)), cond, f"{what_} given shape ({', '.join(tm.show(d) if isinstance(d, T) else str(d) for d in sh)})", w)
                S.lab.done()
            return run
        count = 10
        for i in range(count):
            rep.attempt(f"entry point {i + 1} ({name})", one(i, name, "generic"), one(i, name, "one" if reg else "small"))


# ------------------------------------------------------------------ C07

def c07(rep: Rep):
    w = Lab(rep).where("mechanical_step._model")

    def body(S):
        plan = [1, 2] if rep.tier == "quick" else [1, 2, 1, 4]
        for n in plan:
            S.run(n)
        for s in kinds_of(S, 1 + sum(plan)):
            if s.kind != "mech":
                continue
            un = unknowns(S, s)
            with S.at(s):
                prev = values(S, S.array(s.obj, "prev_y"))
                for k, (ref, key, _) in un.items():
                    fx = S.ip.truth(lp.read_attr(S.ip, ref, "fixed", key, tm.FALSE))
                    want = S.g.is_dirichlet(k[0])
                    rep.eq(fx, want, f"{label(k)} is held at mechanical solve {s.index} exactly on the fixed boundary", w)
                    if want is tm.FALSE:
                        continue
                    v = number(S, lp.read_attr(S.ip, ref, "value", key, None), f"start value of {label(k)}", w, rep)
                    rep.eq(v, S.initial(k), f"held value of {label(k)} at mechanical solve {s.index}", w, assume=(want,))
        steps = S.steps()
        H = history(S, S.solves())
        for j, (Yj, _, _, _) in enumerate(H):
            for k, t in Yj.items():
                if S.g.is_dirichlet(k[0]) is tm.FALSE:
                    continue
                rep.eq(t, S.initial(k), f"deformation {label(k)} of step {j} on the fixed boundary", w, assume=(S.g.is_dirichlet(k[0]),))
    scenes(rep, False, body, "clamped vertices", light=True)


# ------------------------------------------------------------------ C08

class Span:
    """row space over floats, by elimination"""

    def __init__(self, tol=1e-9):
        self.rows = []
        self.tol = tol

    def reduce(self, r):
        r = list(r)
        for p, q in self.rows:
            if abs(r[p]) > 0:
                f = r[p]
                r = [a - f * b for a, b in zip(r, q)]
                r[p] = 0.0
        return r

    def add(self, r):
        r = self.reduce(r)
        p = max(range(len(r)), key=lambda i: abs(r[i]))
        if abs(r[p]) < self.tol:
            return False
        d = r[p]
        self.rows.append((p, [x / d for x in r]))
        return True

    def has(self, r):
        return max(abs(x) for x in self.reduce(r)) < 1e-7


def c08(rep: Rep):
    w = Lab(rep).where("mechanical_step._model_regularized")
    chain = dict(tris=[(0, 1, 2), (1, 3, 2)], d=[(0, 1), (3, 1), (2, 0)], n=[(3, 2)], inner=[(1, 2)], dv=[0, 1, 3, 2], nv=[3, 2])
    fan = dict(tris=[(0, 1, 2), (1, 3, 2)], d=[(0, 1), (0, 2), (3, 2)], n=[(1, 3)], inner=[(1, 2)], dv=[0, 1, 2, 3], nv=[1, 3])
    around = dict(tris=[(0, 1, 2)], d=[(0, 1), (1, 2), (0, 2)], n=[], inner=[], dv=[0, 1, 2], nv=[])
    shapes = [("two edges", ONE_TRI), ("one edge", SMALL), ("three edges in different directions", chain),
              ("two edges with one start", fan), ("the whole boundary", around)]
    for name, shape in shapes:
        with rep.ob(f"clamped edges of the regularized problem: {name}", w):
            S = Scene(rep, True, "small", run=False, light=True)
            # positions without symmetry, edges in both directions
            S.g = small_mesh(S.lab, shape=shape)
            S.r, S.q = (small_mesh(S.lab, p, S.g, shape=shape) for p in "fq")
            S.tg = S.r
            S.construct()
            S.run()
            S.run(2)
            for s in kinds_of(S, 4):
                if s.kind == "mech":
                    clamped(S, s, w)
            S.lab.done()
    with rep.ob("no clamped edge: nothing is held", w):
        S = Scene(rep, True, "small", run=False, light=True)
        free = dict(tris=[(0, 1, 2)], d=[], n=[(0, 1), (1, 2), (2, 0)], inner=[], dv=[], nv=[0, 1, 2])
        S.g = small_mesh(S.lab, shape=free)
        S.r, S.q = (small_mesh(S.lab, p, S.g, shape=free) for p in "fq")
        S.tg = S.r
        S.construct()
        for s in kinds_of(S, 1):
            if s.kind == "mech":
                clamped(S, s, w)
        S.lab.done()


def constraints(S, s):
    """active equality constraints of the model: [(description, left - right)]"""
    out = []
    ip = S.ip
    for n, ref, c in S.comps(s, "Constraint") + S.comps(s, "ConstraintList"):
        act = ip.vsimp(ip.getattr(ref, "active"))
        if act is tm.FALSE:
            continue
        if act is not tm.TRUE:
            raise Unsupported("conditionally active constraint")
        keys = []
        flat = ip.concrete(tuple(c.index)) if c.index is not None and c.kind == "Constraint" else None
        if c.kind == "ConstraintList" or c.index is None:
            keys = [e[1][1] for e in c.log if e[0] == "put" and e[1][0] == "expr"]
        elif flat is None:
            raise Unsupported("constraints of unknown number")
        else:
            keys = [lp.flat_key(k) for k in flat]
        for k in keys:
            if ip.vsimp(lp.read_attr(ip, ref, "inactive", k, tm.FALSE)) is tm.TRUE:
                continue
            e = lp.read_attr(ip, ref, "expr", k, None)
            if e is None:
                continue
            for x in (conj(e) if isinstance(e, T) else [e]):
                if isinstance(x, T) and x.op == "f" and x.a[0] == "rel_eq":
                    a, b = (lp.value_of(ip, y) for y in x.a[1])
                    out.append((f"{n}{label(k)}", tm.sub(a, b)))
                elif isinstance(x, T) and x.op == "f" and x.a[0] in ("rel_le", "rel_lt"):
                    continue
                else:
                    raise Unsupported("constraint expression")
    return out


def clamped(S, s, w):
    rep, ip = S.rep, S.ip
    un = unknowns(S, s)
    atom = {k: t for k, (_, _, t) in un.items()}
    cols = list(atom.values())
    index = {t: i for i, t in enumerate(cols)}
    with S.at(s, "all"):
        eqs = constraints(S, s)
    with S.at(s):
        for k, (ref, key, t) in un.items():
            fx = ip.truth(lp.read_attr(ip, ref, "fixed", key, tm.FALSE))
            if fx is tm.TRUE:
                v = number(S, lp.read_attr(ip, ref, "value", key, None), f"held value of {label(k)}", w, rep)
                eqs.append((f"held value of {label(k)}", tm.sub(t, v)))
            elif fx is not tm.FALSE:
                raise Unsupported("conditionally held degree of freedom")
    want = []
    for e in S.g.edges["d"]:
        P = [S.g.coords(C(i)) for i in e]
        d = [tm.sub(P[1][c], P[0][c]) for c in (0, 1)]
        for i in e:
            p = S.g.coords(C(i))
            for c in (0, 1):
                u = [atom[(C(i), C(c), C(q))] for q in range(6)]
                n = f"edge {e}, vertex {i}, component {c + 1}"
                want.append((n + ": value", tm.sub(u[0], p[c])))
                want.append((n + ": first derivative along the edge",
                             tm.sub(tm.add(tm.mul(u[1], d[0]), tm.mul(u[2], d[1])), d[c])))
                want.append((n + ": second derivative along the edge",
                             tm.add(tm.mul(u[3], d[0], d[0]), tm.mul(C(2), u[4], d[0], d[1]), tm.mul(u[5], d[1], d[1]))))
    for n, t in eqs:
        for c in cols:
            if tm.atoms(tm.diff(t, c), lambda x: x in index):
                raise Unsupported("non-linear constraint")

    def row(t, p):
        zero = {c: Z for c in cols}
        r = [float(p.value(tm.diff(t, c))) for c in cols] + [float(p.value(tm.subst(t, zero)))]
        m = max(abs(x) for x in r) or 1.0
        return [x / m for x in r]
    done = 0
    for p in numeval.points(12):
        try:
            E, W = [row(t, p) for _, t in eqs], [row(t, p) for _, t in want]
        except numeval.NoValue:
            continue
        se, sw = Span(), Span()
        for r in E:
            se.add(r)
        for r in W:
            sw.add(r)
        for (n, _), r in zip(want, W):
            if not se.has(r):
                rep.fail(f"mechanical solve {s.index}: not imposed: {n} equals that of the reference position", w)
                raise Violated
        for (n, _), r in zip(eqs, E):
            if not sw.has(r):
                rep.fail(f"mechanical solve {s.index}: {n} restricts more than the clamped edges", w)
                raise Violated
        done += 1
        if done == 3:
            break
    if not done:
        raise Unsupported("no sample point")
    rep.fact(len(want) + len(eqs))


# ------------------------------------------------------------------ C32

def c32(rep: Rep):
    lab0 = Lab(rep)
    wc = lab0.where("simulation.Simulation")
    wm, wt = lab0.where("mechanical_step.mechanical_step"), lab0.where("thermal_step.thermal_step")

    def body(S):
        lab, ip = S.lab, S.ip
        calls = S.domain_calls
        grids = [c for c in calls if c[0] == "grid"]
        rep.true(bool(grids), "the domain is never asked for a grid", wc)
        for c in grids:
            rep.eq(c[1][0], S.scale, "scale of the grid", wc)
            rep.true(len(c[1]) == 1, "the grid is created with further arguments", wc)
        ref = [c for c in calls if c[0] == "refine" and ip.vsimp(c[1][0]) is S.g.grid]
        if S.reg:
            rep.true(bool(ref), "the grid is not refined in the regularized setting", wc)
            for c in ref:
                rep.eq(c[1][1], S.factor, "refinement factor of the grid", wc)
        else:
            rep.true(not ref, "the grid is refined in the unregularized setting", wc)
        S.run()
        sv = kinds_of(S, 2)
        m, t = sv[0], sv[1]
        with S.at(m):
            arr = lab.attr(lab.meth(m.obj, "prev_y"), "shape")
            rep.true(len(lab.items(arr)) == (3 if S.reg else 2), "kind of the mechanical problem does not match the regularization", wm)
            for k, v in values(S, S.array(m.obj, "prev_theta"), False).items():
                rep.eq(v, S.T0, f"temperature {label(k)} before the first step", wc)
        with S.at(t):
            arr = lab.attr(lab.meth(t.obj, "prev_y"), "shape")
            rep.true(len(lab.items(arr)) == (3 if S.reg else 2), "kind of the thermal problem does not match the regularization", wt)
            for k, v in values(S, S.array(t.obj, "prev_theta"), False).items():
                rep.eq(v, S.T0, f"temperature {label(k)} before the first thermal solve", wc)
        for st in S.steps():
            cls = ip.get(ip.vsimp(st)).cls
            names = [c.name for c in cls.mro]
            rep.true(("RegularizedStep" in names) == S.reg, f"a recorded step is of class {cls.name}", wc)
        for i, s in enumerate(sv):
            box(S, s, i // 2 + 1)

    for reg, name in SETTINGS:
        scenes(rep, reg, body, f"grid, initial temperature, search radius ({name})", light=True)
    scenes(rep, True, body, "regularization zero is a regularization", light=True, eps=Z)

    for k in (1, 3, 5):
        with rep.ob(f"grid and refinement of a simulation with refinement factor {k}", wc):
            S = Scene(rep, True, "one", run=False, light=True)
            S.factor = C(k)
            S.construct()
            ip = S.ip
            for c in S.domain_calls:
                if c[0] == "grid":
                    rep.eq(c[1][0], S.scale, "scale of the grid", wc)
            ref = [c for c in S.domain_calls if c[0] == "refine" and ip.vsimp(c[1][0]) is S.g.grid]
            rep.true(bool(ref), "the grid is not refined in the regularized setting", wc)
            for c in ref:
                rep.eq(c[1][1], S.factor, "refinement factor of the grid", wc)
            S.lab.done()

    from . import models

    def functional(S):
        S.run()
        for s in kinds_of(S, 2):
            models.compare(S, s)
            if S.reg and s.kind == "mech":
                models.compare_regularization(S, s)
    for reg, name in SETTINGS:
        scenes(rep, reg, functional, f"fps and regularization in the functionals ({name})")
    for kind in ("mechanical", "thermal", "step"):
        with rep.ob(f"regularized {kind} problem without a refined grid", wm if kind == "mechanical" else wt):
            S = Scene(rep, True, "small", run=False, light=True)
            lab = S.lab
            p = S.params()
            py, pt = S.y_array("py"), S.th_array("pt", S.g)
            if kind == "mechanical":
                mp = lab.meth(p, "mechanical_step_params")
                lab.bad(lambda: lab.call("mechanical_step.mechanical_step", None, S.g.grid, mp, None, S.trac), "ValueError",
                        "mechanical_step", where=wm)
            elif kind == "thermal":
                tp = lab.meth(p, "thermal_step_params")
                lab.bad(lambda: lab.call("thermal_step.thermal_step", None, S.g.grid, py, py, pt, tp, S.ext), "ValueError",
                        "thermal_step", where=wt)
            else:
                lab.bad(lambda: lab.call("simulation.RegularizedStep", py, pt, S.domain, S.g.grid, None), "ValueError",
                        "RegularizedStep", where=lab.where("simulation.RegularizedStep"))
            lab.done()


# ------------------------------------------------------------------ C33

def c33(rep: Rep):
    lab0 = Lab(rep)

    def body(S, tag=None):
        S.run()
        S.run(2)
        sv = kinds_of(S, 4)
        times = {"mech": [], "therm": []}
        for s in sv:
            mod = "mechanical_step" if s.kind == "mech" else "thermal_step"
            what = "boundary traction" if s.kind == "mech" else "external temperature"
            names = ("trac0", "trac1") if s.kind == "mech" else ("ext",)
            o, _ = S.objective(s)
            ats = tm.atoms(o, is_load(*names))
            w = S.lab.where(f"{mod}._model{'_regularized' if S.reg else ''}")
            with rep.ob(f"{what} in the functional of solve {s.no} ({'regularized' if S.reg else 'unregularized'})", w) as ob:
                if tag:
                    ob["tag"] = tag + ("-traction" if s.kind == "mech" else "-temperature")
                for n in names:
                    if not any(a.a[0] == n for a in ats):
                        rep.fail(f"the {what} given to the simulation does not occur in the minimised functional", w)
                        raise Violated
                rep.fact()
                ts = {a.a[1][0] for a in ats}
                rep.true(len(ts) == 1, f"the {what} is used at several times in one solve", w)
                times[s.kind].append(ts)
                part = tm.sub(o, without_loads(o, names))
                r = numeval.differ(part, Z)
                if r is None:
                    raise Unsupported("load dependence")
                rep.true(r != "same", f"the {what} does not influence the minimised functional", w)
                time = next(iter(ts))
                if s.kind == "mech":
                    y = free_y(S, s)
                    among(rep, part, [tm.neg(traction_work(S, s, time, n, y)) for n in (1, 2, 3)],
                          f"traction work at solve {s.no}", w)
                else:
                    th = free_theta(S, s)
                    rep.eq(part, tm.sub(heat_exchange(S, s, tm.rapp("ext", (time,)), 2, th), heat_exchange(S, s, Z, 2, th)),
                           f"heat exchange at solve {s.no}", w)
                if len(times[s.kind]) > 1 and times[s.kind][-2] == ts:
                    rep.fail(f"the {what} is not refreshed before solve {s.no}", w)

    scenes(rep, False, lambda S: body(S), "loads of the unregularized problems")
    scenes(rep, True, lambda S: body(S, "regularized-loads"), "loads of the regularized problems", light=True)


# ------------------------------------------------------------------ C34

def c34(rep: Rep):
    opt = lambda k: tm.app("optimal", (f"s{k}",), isbool=True)

    def body(S):
        lab, ip = S.lab, S.ip
        where = {"mech": lab.where(f"mechanical_step._MechanicalStep{'Regularized' if S.reg else ''}.solve"),
                 "therm": lab.where(f"thermal_step._ThermalStep{'Regularized' if S.reg else ''}.solve")}

        def check(first, marks):
            sv = S.solves()
            for k in range(first, len(sv) + 1):
                s = sv[k - 1]
                w = where.get(s.kind)
                if ip.simp(opt(k)) is not tm.TRUE:
                    rep.fail(f"the simulation goes on after solve {k} ({s.kind}) although the solver did not report an optimal solution", w)
                    raise Violated
                rep.fact()
                # the failure surfaces before the next solve and before anything is recorded
                recs = [r for r in ip.raises if uses(r.cond, opt(k))]
                numeval.HINTS["optimal"] = lambda p, key, r, k=k: int(key[0][1:]) != k
                hit = [r for r in recs if numeval.witness(r.cond, n=20, facts=()) is not None]
                del numeval.HINTS["optimal"]
                if not hit:
                    rep.fail(f"no error is raised when solve {k} ({s.kind}) fails", w)
                    raise Violated
                for r in hit:
                    segs = ip.get(ip.trace_ref).segs[:r.ev]
                    n = sum(1 for x in segs if event_kind(x) == "solve")
                    rep.true(n == k, f"solve {k} failed, but the error is raised only after {n} solves", w)
                    if marks is not None and r.changed is not None:
                        rep.true(r.changed == marks[k], f"a step has been recorded from the failed solve {k}", w)

        S.construct()
        check(1, None)
        n0 = len(S.steps())
        ip.shared_marks.append(lambda ip: count_steps(S))
        try:
            first = len(S.solves()) + 1
            S.run()
            S.run(2)
        finally:
            ip.shared_marks.pop()
        marks = {k: n0 + (k - first) // 2 for k in range(first, len(S.solves()) + 1)}
        check(first, marks)

    for reg, name in SETTINGS:
        scenes(rep, reg, body, f"failed solves ({name})", light=True, run=False)


def count_steps(S):
    v = S.ip.get(S.sim).attrs.get("steps")
    c = S.ip.get(v) if isinstance(v, Ref) else None
    return len(c.segs) if isinstance(c, va.Lst) else None


def event_kind(seg):
    x = seg[1] if seg[0] == "i" else seg
    return x[0] if isinstance(x, tuple) else None


def uses(c, atom):
    return bool(tm.atoms(c, lambda t: t is atom))


RULES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
         "C32": c32, "C33": c33, "C34": c34}
