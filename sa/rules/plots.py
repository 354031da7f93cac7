"""C37 (plot window, bounds-checked step access) and C39 (recorded steps evaluate the recorded data)."""
from __future__ import annotations
import os
import re
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from ..terms import T
from ..values import Unsupported, AbsRaise, Ref, BuiltinV, ExtV
from .base import Lab, Rep, Violated, show, site
from .scene import Scene, scenes, bound_var
from .steps import (SETTINGS, kinds_of, history, evaluate, snapshot, diff_heap, describe, label)
from .elements import pts_of, combo

Z, O = tm.ZERO, tm.ONE
C = tm.const


# ------------------------------------------------------------------ events

def events(ip, start=0):
    """[(name, args, kwargs)] of the calls into matplotlib since the mark"""
    out = []
    for seg in ip.get(ip.trace_ref).segs[start:]:
        if seg[0] != "i" or seg[1][0] != "ext":
            if seg[0] == "i" and seg[1][0] in ("solve", "tqdm"):
                out.append((seg[1][0], (), {}))
                continue
            raise Unsupported("repeated plotting calls of unknown number")
        _, name, a, k = seg[1][:4]
        if name == "tqdm":
            continue
        out.append((name, a, dict(k) if not isinstance(k, dict) else k))
    return out


def mark(ip):
    return len(ip.get(ip.trace_ref).segs)


def tail(name):
    return name.split(".")[-1].split("(")[0]


def pair(lab, v):
    xs = lab.items(v)
    if len(xs) != 2:
        raise Unsupported("plot limits")
    return tuple(xs)


def window(lab, ev):
    """((xlo, xhi), (ylo, yhi)) of the axis as set last"""
    lim = {"x": None, "y": None}
    for name, a, k in ev:
        n = tail(name)
        for c in "xy":
            if n in (f"set_{c}lim", f"{c}lim"):
                lo, hi = ("left", "right") if c == "x" else ("bottom", "top")
                if len(a) == 2:
                    lim[c] = tuple(a)
                elif len(a) == 1 and not k:
                    lim[c] = pair(lab, a[0])
                elif lo in k and hi in k:
                    lim[c] = (k[lo], k[hi])
                elif f"{c}min" in k and f"{c}max" in k:
                    lim[c] = (k[f"{c}min"], k[f"{c}max"])
                elif len(a) == 1 and hi in k:
                    lim[c] = (a[0], k[hi])
            elif n == f"set_{c}bound" and len(a) == 2:
                lim[c] = tuple(a)
            elif n in ("set", "setp") and f"{c}lim" in k:
                lim[c] = pair(lab, k[f"{c}lim"])
        if n == "axis" and len(a) == 1 and not isinstance(a[0], str):
            xs = lab.items(a[0])
            lim["x"], lim["y"] = tuple(xs[:2]), tuple(xs[2:])
    if None in lim.values():
        raise Unsupported("the limits of the axis are not set by a known call")
    return lim["x"], lim["y"]


def colours(lab, ev):
    """arguments of the one call of tripcolor: x, y, triangles, c, kwargs"""
    calls = [e for e in ev if tail(e[0]) == "tripcolor"]
    if len(calls) != 1:
        raise Unsupported(f"{len(calls)} calls of tripcolor")
    _, a, k = calls[0]
    k = dict(k)
    if len(a) == 3 and "triangles" in k:
        x, y, c, tri = a[0], a[1], a[2], k["triangles"]
    elif len(a) == 4:
        x, y, tri, c = a
    elif len(a) == 2 and "triangles" in k and "facecolors" not in k and "c" in k:
        x, y, c, tri = a[0], a[1], k["c"], k["triangles"]
    else:
        raise Unsupported("arguments of tripcolor")
    return x, y, tri, c, k


# ------------------------------------------------------------------ C37

def extreme(S, kind, arrays, *col):
    """largest/smallest entry of the arrays (of the given column)"""
    lab, ip = S.lab, S.ip
    f = ip.getattr(ip.module("numpy"), kind)
    out = []
    for a in arrays:
        r = ip.new(a)
        if col:
            r = lab.item(r, *((slice_all(ip),) + tuple(C(x) for x in col)))
        out.append(ip.call(f, [r], {}))
    return tm.minmax(kind, out)


def slice_all(ip):
    return va.SliceV(None, None, None)


def c37(rep: Rep):
    lab0 = Lab(rep)
    wa = lab0.where("simulation.Simulation._append_step")
    wp, ws = lab0.where("simulation.Simulation.plot_step"), lab0.where("simulation.Simulation.save_step")
    wm = lab0.where("simulation.Simulation.save_animation")

    def spans(S, H, ev, what):
        lab = S.lab
        if not ev:
            rep.fail(f"{what} draws nothing", wp)
            raise Violated
        lims = window(lab, ev)
        for c in (0, 1):
            col = (c, 0) if S.reg else (c,)
            arrs = [h[2] for h in H]
            lo, hi = extreme(S, "min", arrs, *col), extreme(S, "max", arrs, *col)
            n = "horizontally" if c == 0 else "vertically"
            if S.reg:
                m = f"{what}: the window spans all recorded deformations {n}"
                rep.eq(tm.minmax("min", [lims[c][0], lo]), lims[c][0], m + " (lower end)", wa)
                rep.eq(tm.minmax("max", [lims[c][1], hi]), lims[c][1], m + " (upper end)", wa)
            else:
                rep.eq(lims[c][0], lo, f"{what}: lower end of the window {n}", wa)
                rep.eq(lims[c][1], hi, f"{what}: upper end of the window {n}", wa)

    def hottest(S, H):
        return tm.minmax("max", [extreme(S, "max", [h[3] for h in H]), Z])

    def shows(S, ev, step, what, w):
        """the plotted colours are the temperatures of the step"""
        lab = S.lab
        x, y, tri, c, k = colours(lab, ev)
        got = [lab.item(v, C(0)) for v in (x, y, c)]
        want = plotted(S, step)
        for a, b, n in zip(got, want, ("first deformation component", "second deformation component", "temperature")):
            rep.eq(a, b, f"{what}: plotted {n}", w)

    def plotted(S, step):
        """values of the step at the first point of its plotting grid"""
        lab = S.lab
        m = mark(S.ip)
        lab.meth(step, "plot", ExtV("ax"), O)
        x, y, tri, c, k = colours(lab, events(S.ip, m))
        return [lab.item(v, C(0)) for v in (x, y, c)]

    def body(S):
        lab, ip = S.lab, S.ip
        if S.g.tris is None:
            locate(S)
        done = 0
        for n in ([0, 1, 2, 8] if rep.tier == "quick" else [0, 1, 2, 1, 5, 1, 1, 3, 20]):
            if n:
                S.run(n)
            done += n
            long = n >= 8
            sv = kinds_of(S, 1 + done)
            H = history(S, sv)
            steps = S.steps()
            N = len(steps)
            rep.eq(lab.meth(S.sim, "max_temp"), hottest(S, H), f"maximal temperature after {N} recorded steps", wa)
            for i in (range(-N, N) if N < 4 else (0, N - 1, N // 2) if long else (0, N - 1, -1, -N)):
                m = mark(ip)
                lab.good(lambda: lab.meth(S.sim, "plot_step", C(i)), f"plot_step({i})", where=wp)
                ev = events(ip, m)
                spans(S, H, ev, f"plot_step({i})")
                shows(S, ev, steps[i], f"plot_step({i}) of {N} steps", wp)
                rep.eq(colours(lab, ev)[4].get("vmax"), hottest(S, H), f"plot_step({i}): colour range", wp)
            for i in (range(-N, N) if N < 4 else (-2, N - 1) if long else (0, N - 1, -1, -2, -N)):
                for path in (None, "out/run7"):
                    m = mark(ip)
                    a = [C(i)] + ([path] if path else [])
                    lab.good(lambda: lab.meth(S.sim, "save_step", *a), f"save_step({i})", where=ws)
                    ev = events(ip, m)
                    shows(S, ev, steps[i], f"save_step({i}) of {N} steps", ws)
                    sav = [e for e in ev if tail(e[0]) in ("savefig", "imsave")]
                    if len(sav) != 1:
                        rep.fail(f"save_step({i}) of {N} steps writes {len(sav)} files", ws)
                        raise Violated
                    name = sav[0][1][0] if sav[0][1] else sav[0][2].get("fname")
                    if not isinstance(name, str):
                        raise Unsupported("name of the saved file")
                    pre = path or "step"
                    rest = name[len(pre):] if name.startswith(pre) else name
                    num = re.findall(r"-?\d+", rest.replace(".png", ""))
                    rep.true(name.startswith(pre) and num == [str(i % N)],
                             f"save_step({i}{', ' + repr(path) if path else ''}) of {N} steps writes {name!r}", ws)
            hi = tm.sym("above", True, lo=N)
            lo = tm.sym("below", True, hi=-N - 1)
            for i in (C(N), C(-N - 1), C(N + 5), C(-3 * N), hi, lo):
                for meth, w in (("plot_step", wp), ("save_step", ws)):
                    m = mark(ip)
                    before = snapshot(ip)
                    lab.good(lambda: lab.meth(S.sim, meth, i), f"{meth}({tm.show(i)}) of {N} steps", where=w)
                    ev = ip.get(ip.trace_ref).segs[m:]
                    if ev:
                        rep.fail(f"{meth}({tm.show(i)}) of {N} steps does something: {events(ip, m)[0][0]}", w)
                    ch = [c for c in diff_heap(ip, before) if c[0] is not ip.trace_ref]
                    if ch:
                        rep.fail(f"{meth}({tm.show(i)}) of {N} steps changes {describe(S, ch[0])}", w)
                    rep.fact()

    for reg, name in SETTINGS:
        scenes(rep, reg, body, f"plot window and step access ({name})", light=True)

    def animation(S):
        lab, ip = S.lab, S.ip
        if S.g.tris is None:
            locate(S)
        S.run(2)
        H = history(S, kinds_of(S, 3))
        steps = S.steps()
        m = mark(ip)
        lab.good(lambda: lab.meth(S.sim, "save_animation"), "save_animation", where=wm)
        ev = events(ip, m)
        an = [e for e in ev if tail(e[0]) == "FuncAnimation"]
        if len(an) != 1:
            raise Unsupported("animation")
        _, a, k = an[0]
        fn = a[1] if len(a) > 1 else k.get("func")
        fr = k.get("frames", a[2] if len(a) > 2 else None)
        if not isinstance(fr, T):
            fr = ip.builtins["len"].fn(ip, [fr], {})
        rep.eq(fr, C(len(steps)), "number of frames of the animation", wm)
        for i in range(len(steps)):
            m = mark(ip)
            lab.good(lambda: lab.call(fn, C(i)), f"frame {i}", where=wm)
            ev = events(ip, m)
            spans(S, H, ev, f"frame {i} of the animation")
            shows(S, ev, steps[i], f"frame {i} of the animation", wm)
            rep.eq(colours(lab, ev)[4].get("vmax"), hottest(S, H), f"frame {i}: colour range", wm)
    for reg, name in SETTINGS:
        scenes(rep, reg, animation, f"frames of the animation ({name})", light=True)


# ------------------------------------------------------------------ C39

def barys(P, t, p):
    """barycentric coordinates of p in the triangle (exact terms)"""
    a, b, c = (P[i] for i in t)
    d = lambda u, v: tm.sub(tm.mul(u[0], v[1]), tm.mul(u[1], v[0]))
    m = lambda u, v: [tm.sub(u[0], v[0]), tm.sub(u[1], v[1])]
    A = d(m(b, a), m(c, a))
    l1, l2 = tm.div(d(m(b, p), m(c, p)), A), tm.div(d(m(c, p), m(a, p)), A)
    return l1, l2, tm.sub(tm.sub(O, l1), l2)


def inside(bs):
    return all(isinstance(x, T) and x.op == "c" and x.a[0] >= 0 for x in bs)


class Fields:
    """a rectangle of two cells, refined once; arbitrary nodal values; own evaluation of the fields"""

    def __init__(self, rep, reg, order):
        self.rep, self.reg = rep, reg
        numeval.reset()
        lab = self.lab = Lab(rep)
        s = self.s = C(Fraction(3, 4))
        self.dom = lab.call("domain.RectangleDomain", tm.mul(C(2), s), s, "left")
        g = self.g = lab.good(lambda: lab.meth(self.dom, "grid", s), "grid")
        self.r = lab.good(lambda: lab.meth(self.dom, "refine", g, 2), "refine") if reg else None
        self.q = lab.good(lambda: lab.meth(self.dom, "refine", g, 3), "refine") if reg else None
        self.tg = self.r or g
        self.P, self.TP = pts_of(lab, g), pts_of(lab, self.tg)
        self.tris = [lab.ints(t) for t in lab.items(lab.attr(g, "triangles"))]
        self.ttris = [lab.ints(t) for t in lab.items(lab.attr(self.tg, "triangles"))]
        self.asked = []
        n, m = len(self.P), len(self.TP)
        rd = [tm.sym(f"Y{i}_{c}_{d}") for i in range(n) for c in (0, 1) for d in range(6 if reg else 1)]
        it = iter(rd)
        self.Y = [[[next(it) for d in range(6 if reg else 1)] for c in (0, 1)] for i in range(n)]
        self.TH = [tm.sym(f"TH{i}", lo=0) for i in range(m)]
        mk = lambda t: lab.ip.new(va.Arr(t))
        if reg:
            self.ya = mk(("const", tuple(("const", tuple(("const", tuple(self.Y[i][c])) for c in (0, 1))) for i in range(n))))
        else:
            self.ya = mk(("const", tuple(("const", (self.Y[i][0][0], self.Y[i][1][0])) for i in range(n))))
        self.ta = mk(("const", tuple(self.TH)))

        def refine(ip, a, k):
            self.asked.append(a)
            return self.q
        stub = lab.stub("Domain", None, BuiltinV("refine", refine), None)
        args = [self.ya, self.ta, stub, g] + ([self.r] if reg else [])
        name = "simulation.RegularizedStep" if reg else "simulation.Step"
        self.w = lab.where(name)
        self.step = lab.good(lambda: lab.call(name, *args), name, where=self.w)
        self.c1 = None
        if reg:
            self.c1 = [lab.call("interpolation.C1Interpolation", g, lab.lst([lab.lst(self.Y[i][c]) for i in range(n)]))
                       for c in (0, 1)]

    def home(self, P, tris, p):
        for t in tris:
            b = barys(P, t, p)
            if inside(b):
                return t, b
        raise Unsupported("point outside of the grid")

    def value_y(self, c, t, b):
        if self.reg:
            return self.lab.call(self.c1[c], tuple(C(i) for i in t), self.lab.bary(b[0], b[1]))
        return tm.add(*[tm.mul(x, self.Y[i][c][0]) for x, i in zip(b, t)])

    def value_th(self, t, b):
        return tm.add(*[tm.mul(x, self.TH[i]) for x, i in zip(b, t)])

    def at(self, p):
        """the three field values at a point with coordinates a multiple of s"""
        t, b = self.home(self.P, self.tris, p)
        ft, fb = self.home(self.TP, self.ttris, p)
        return self.value_y(0, t, b), self.value_y(1, t, b), self.value_th(ft, fb)


WEIGHTS = [(Fraction(1, 3), Fraction(1, 3)), (Fraction(1, 7), Fraction(3, 5)), (Fraction(5, 8), Fraction(1, 9)),
           (Fraction(1), Fraction(0)), (Fraction(0), Fraction(1)), (Fraction(0), Fraction(0)), (Fraction(1, 2), Fraction(1, 2)),
           (Fraction(0), Fraction(2, 3)), (Fraction(1, 4), Fraction(0))]
NAMES = ("first deformation component", "second deformation component", "temperature")


def locate(S):
    """point location is an opaque function: every point lies in some triangle of the grid"""
    lab = S.lab
    f = lab.get("domain.Grid.to_barycentric_point")

    def ov(ip, fn, a, k):
        g = ip.vsimp(a[0])
        mesh = next((m for m in (S.g, S.r, S.q) if m is not None and ip.vsimp(m.grid) is g), None)
        if mesh is None:
            raise Unsupported("point location in an unknown grid")
        x, y = lab.items(a[1])
        t, l1, l2 = located(S, mesh, x, y)
        return lab.call("domain.BarycentricPoint", t, lab.bary(l1, l2))
    S.ip.overrides[f.node] = ov


def located(S, mesh, x, y):
    pre = mesh.pre
    n = tm.rapp(pre + "loc", (x, y), True)
    tm.RANGES[pre + "loc"] = lambda args: (Z, tm.sub(mesh.M, O), False)
    for j in (1, 2):
        tm.RANGES[f"{pre}lam{j}"] = lambda args: (C(Fraction(1, 50)), C(Fraction(12, 25)), False)
    return (tuple(tm.rapp(pre + "tri", (C(j), n), True) for j in range(3)), tm.app(pre + "lam1", (x, y)), tm.app(pre + "lam2", (x, y)))


def anywhere(rep, reg, name):
    """fields at an arbitrary point of an arbitrary grid, location taken as given"""
    S = Scene(rep, reg, "generic", run=False, light=True)
    locate(S)
    lab = S.lab
    w = lab.where("simulation.RegularizedStep" if reg else "simulation.Step")
    ya, ta = S.y_array("fy"), S.th_array("ft")
    args = [ya, ta, S.domain, S.g.grid] + ([S.r.grid] if reg else [])
    step = lab.good(lambda: lab.call("simulation.RegularizedStep" if reg else "simulation.Step", *args), "recorded step", where=w)
    X, Y = tm.sym("X"), tm.sym("Y")
    t, l1, l2 = located(S, S.g, X, Y)
    ft, f1, f2 = located(S, S.tg, X, Y)
    at = lambda f, t, a, b: tm.add(tm.mul(a, f(t[0])), tm.mul(b, f(t[1])), tm.mul(tm.sub(tm.sub(O, a), b), f(t[2])))
    want = []
    for c in (0, 1):
        if reg:
            b = bound_var(lab, S.g.N)
            par = lab.fam(("g", b, S.g.N, (("i", lab.lst([tm.rapp(f"fy{c}{d}", (b,)) for d in range(6)])),)))
            want.append(lab.call(lab.call("interpolation.C1Interpolation", S.g.grid, par), t, lab.bary(l1, l2)))
        else:
            want.append(at(lambda i, c=c: tm.rapp(f"fy{c}0", (i,)), t, l1, l2))
    want.append(at(lambda i: tm.rapp("ft", (i,)), ft, f1, f2))
    y = lab.good(lambda: lab.call(lab.attr(step, "y"), X, Y), "deformation of a recorded step", where=w)
    th = lab.good(lambda: lab.call(lab.attr(step, "theta"), X, Y), "temperature of a recorded step", where=w)
    for g, e, n in zip((lab.item(y, 0), lab.item(y, 1), th), want, NAMES):
        rep.eq(g, e, f"{n} at an arbitrary point", w)
    lab.done()


def c39(rep: Rep):
    for reg, name in SETTINGS:
        with rep.ob(f"fields of a recorded step at any point of any grid ({name})"):
            anywhere(rep, reg, name)
    for reg, name in SETTINGS:
        F = None
        with rep.ob(f"fields of a recorded step ({name})"):
            F = Fields(rep, reg, 0)
            lab = F.lab
            pts = []
            ws = WEIGHTS if rep.tier == "quick" else WEIGHTS + [(Fraction(i, 11), Fraction(j, 11)) for i in range(12) for j in range(12 - i)]
            for t in F.ttris:
                for a, b in ws:
                    l = (C(a), C(b), C(1 - a - b))
                    p = combo(l, [F.TP[i] for i in t])
                    if not any(x == p for x in pts):
                        pts.append(p)
            for p in pts:
                want = F.at(p)
                y = lab.good(lambda: lab.call(lab.attr(F.step, "y"), *p), "deformation of a recorded step", where=F.w)
                th = lab.good(lambda: lab.call(lab.attr(F.step, "theta"), *p), "temperature of a recorded step", where=F.w)
                got = (lab.item(y, 0), lab.item(y, 1), th)
                for g, w, n in zip(got, want, NAMES):
                    rep.eq(g, w, f"{n} at ({tm.show(p[0])}, {tm.show(p[1])})", F.w)
        if F is None or not hasattr(F, "step"):
            continue
        wp = F.lab.where("simulation.AbstractStep.plot")
        with rep.ob(f"temperature plot of a recorded step ({name})", wp):
            lab, ip = F.lab, F.lab.ip
            tmax = tm.sym("tmax", lo=0)
            m = mark(ip)
            lab.good(lambda: lab.meth(F.step, "plot", ExtV("ax"), tmax), "plot", where=wp)
            x, y, tri, c, k = colours(lab, events(ip, m))
            grid = F.q if reg else F.g
            if reg:
                for a in F.asked:
                    rep.true(ip.vsimp(a[0]) is F.r, "the plotting grid is not made from the refined grid", F.w)
                rep.true(len(F.asked) > 0, "no plotting grid is made", F.w)
            gp = pts_of(lab, grid)
            cols = [lab.items(v) for v in (x, y, c)]
            for col, n in zip(cols, NAMES):
                rep.true(len(col) == len(gp), f"{n}: {len(col)} values plotted for {len(gp)} points", wp)
            tr = [lab.ints(t) for t in lab.items(tri)]
            rep.true(tr == [lab.ints(t) for t in lab.items(lab.attr(grid, "triangles"))],
                     "the plotted triangles are not those of the plotting grid", wp)
            for i, p in enumerate(gp):
                for col, w, n in zip(cols, F.at(p), NAMES):
                    rep.eq(col[i], w, f"plotted {n} at point {i} of the plotting grid", wp)
            lo, hi = k.get("vmin"), k.get("vmax")
            if lo is None and hi is None and "clim" in k:
                lo, hi = pair(lab, k["clim"])
            if lo is None or hi is None:
                raise Unsupported("colour range")
            rep.eq(lo, Z, "lower end of the colour range", wp)
            rep.eq(hi, tmax, "upper end of the colour range", wp)
            lab.done()


# ------------------------------------------------------------------ C46

DRAW = ("tripcolor", "tricontourf", "tricontour", "triplot", "plot", "scatter", "imshow", "pcolormesh", "fill")
FRESH = ("subplots", "figure", "subplot_mosaic", "add_subplot", "clear", "cla", "clf", "remove", "delaxes", "axes")
LIMITS = ("set_xlim", "set_ylim", "xlim", "ylim", "set_xbound", "set_ybound", "set", "setp", "axis")


def alone(rep, ev, what, w):
    """the drawing is made on an empty axis, on which the limits are set and which is not emptied afterwards"""
    names = [tail(e[0]) for e in ev]
    draws = [i for i, n in enumerate(names) if n in DRAW]
    if not draws:
        rep.fail(f"{what} draws nothing", w)
        raise Violated
    fresh = [i for i, n in enumerate(names) if n in FRESH]
    if not any(i < draws[0] for i in fresh):
        rep.fail(f"{what} draws on an axis which may still show something else: no figure is created and nothing is"
                 f" cleared before (calls: {', '.join(names[:8])})", w)
    if any(i > draws[-1] and names[i] in ("clear", "cla", "clf", "remove", "delaxes") for i in fresh):
        rep.fail(f"{what} clears the axis after drawing", w)
    lim = [i for i, n in enumerate(names) if n in LIMITS]
    last = max((i for i in fresh if i < draws[0]), default=-1)
    if lim and not any(i > last for i in lim) and names[last] in ("clear", "cla", "clf"):
        rep.fail(f"{what}: the window is forgotten because the axis is cleared after it is set", w)
    rep.fact()


def figures(S):
    rep, lab, ip = S.rep, S.lab, S.ip
    wp, ws, wm = (lab.where("simulation.Simulation." + n) for n in ("plot_step", "save_step", "save_animation"))
    if S.g.tris is None:
        locate(S)
    S.run(1)
    N = len(S.steps())

    def files(ev):
        return [i for i, e in enumerate(ev) if tail(e[0]) in ("savefig", "imsave", "save")]

    def kept(before, what, w):
        """no array that existed before has changed"""
        ch = [c for c in diff_heap(ip, before) if isinstance(c[1], va.Arr)]
        rep.true(not ch, f"{what} changes an array of the recorded data", w)

    for i in (0, N - 1, 0, -1, -N):
        m = mark(ip)
        before = snapshot(ip)
        lab.good(lambda: lab.meth(S.sim, "plot_step", C(i)), f"plot_step({i})", where=wp)
        kept(before, f"plot_step({i})", wp)
        ev = events(ip, m)
        alone(rep, ev, f"plot_step({i})", wp)
        rep.true(not files(ev), f"plot_step({i}) writes a file", wp)
        m = mark(ip)
        lab.good(lambda: lab.meth(S.sim, "save_step", C(i)), f"save_step({i})", where=ws)
        ev = events(ip, m)
        alone(rep, ev, f"save_step({i})", ws)
        draws = [j for j, e in enumerate(ev) if tail(e[0]) in DRAW]
        rep.true(len(files(ev)) == 1, f"save_step({i}) writes {len(files(ev))} files", ws)
        rep.true(all(j > draws[-1] for j in files(ev)), f"save_step({i}) writes the file before the step is drawn", ws)
    for name in (None, "out/film"):
        m = mark(ip)
        lab.good(lambda: lab.meth(S.sim, "save_animation", *([name] if name else [])), "save_animation", where=wm)
        ev = events(ip, m)
        sav = files(ev)
        if len(sav) != 1:
            rep.fail(f"save_animation writes {len(sav)} files", wm)
            raise Violated
        _, a, k = ev[sav[0]]
        got = a[0] if a else dict(k).get("filename")
        want = name or "animation"
        if not isinstance(got, str):
            raise Unsupported("name of the animation's file")
        rep.true(os.path.splitext(got)[0] == want, f"save_animation({name!r}) writes {got!r}", wm)
        an = [e for e in ev if tail(e[0]) == "FuncAnimation"]
        if len(an) != 1:
            raise Unsupported("animation")
        _, a, k = an[0]
        fn = a[1] if len(a) > 1 else dict(k).get("func")
        for i in (0, 1, N - 1, 0):
            m = mark(ip)
            before = snapshot(ip)
            lab.good(lambda: lab.call(fn, C(i)), f"frame {i}", where=wm)
            kept(before, f"frame {i} of the animation", wm)
            alone(rep, events(ip, m), f"frame {i} of the animation", wm)


def looked(rep, reg):
    """a simulation whose results are looked at between the steps does the same as one that is left alone"""
    from . import shared as sh
    mesh = "one" if reg else "small"
    w = Lab(rep).where("simulation.Simulation")

    def run(look):
        S = Scene(rep, reg, mesh, run=False, light=True)
        lab = S.lab
        S.construct()
        for n in (1, 2, 1):
            if look:
                N = len(S.steps())
                for i in (N - 1, 0, -1, N, -N - 1):
                    lab.meth(S.sim, "plot_step", C(i))
                    lab.meth(S.sim, "save_step", C(i))
                m = mark(S.ip)
                lab.meth(S.sim, "save_animation")
                for _, a, k in [e for e in events(S.ip, m) if tail(e[0]) == "FuncAnimation"]:
                    for i in (0, N - 1, 0):
                        lab.call(a[1] if len(a) > 1 else dict(k).get("func"), C(i))
                lab.meth(S.sim, "max_temp")
            S.run(n)
        lab.done()
        return S

    def seen(S):
        out = dict(sh.observe(S))
        out["maximal temperature"] = sh.canon(S.lab.meth(S.sim, "max_temp"), sh.model_names(S))
        return out
    a, b = seen(run(False)), seen(run(True))
    for k in list(a) + [x for x in b if x not in a]:
        x, y = a.get(k, "absent"), b.get(k, "absent")
        if isinstance(x, T) and isinstance(y, T):
            rep.eq(y, x, f"after plotting, {k}", w)
        elif sh.same(x, y):
            rep.fact()
        else:
            rep.fail(f"after plotting, {k} is {show(y)}, otherwise {show(x)}", w)


def c46(rep: Rep):
    for reg, name in SETTINGS:
        scenes(rep, reg, figures, f"figures and frames show one step only ({name})", light=True)
    for reg, name in SETTINGS:
        with rep.ob(f"plotting between the steps changes nothing ({name})"):
            looked(rep, reg)


RULES = {"C37": c37, "C39": c39, "C46": c46}
