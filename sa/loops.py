"""Summaries of loops of unknown length: a fixpoint on the write log of one generic iteration."""
from __future__ import annotations
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from .engine import PhiV, SubstV, LoopFrame, DEAD, has_phi


def run_generic(ip, b, n, sub, body):
    ip.loop_summaries += 1
    i = tm.fresh("i", True, ZERO, tm.sub(n, ONE))
    ip.stamps[i] = Ref._n
    sub_i = ip.psubst(sub, {b: i})
    mark = Ref._n
    saved = ip.save_pc()
    hyp = {}
    entry = {}     # slot -> value at the start of iteration i
    closed = {}    # slot -> function k -> value after k iterations
    n_raises = len(ip.raises)
    last = None
    for attempt in range(9):
        del ip.raises[n_raises:]
        depth = len(ip.layers)
        ip.push()
        ip.assume(tm.pos(n))
        installed = {}
        for ref, suf in hyp.items():
            base = ip.get(ref)
            j = tm.fresh("j", True, ZERO, tm.sub(i, ONE))
            ip.stamps[j] = mark
            log = getattr(base, LOGS[type(base)]) + (("g", j, i, ip.psubst(suf, {i: j})),)
            installed[ref] = ip.with_log(base, log)
        by_ref = {}
        for (ref, key), v in entry.items():
            by_ref.setdefault(ref, {})[key] = v
        for ref, d in by_ref.items():
            installed[ref] = with_slots(installed.get(ref, ip.get(ref)), d)
        ip.layers[-1].update(installed)
        frame = LoopFrame(mark, len(ip.assumed))
        ip.loops.append(frame)
        dead = False
        try:
            fl = ip.run_loop(sub_i, body)
        except AbsRaise:
            dead = True
            fl = []
        finally:
            ip.loops.pop()
        del ip.layers[depth + 1:]
        layer = ip.pop()
        post = [c for c in ip.assumed[frame.depth:]]
        ip.restore_pc(saved)
        for f in ip.loops:
            f.read |= {(r, k) for r, k in frame.read if r.id <= f.mark and (r, k) not in f.written}
            f.logread |= {r for r in frame.logread if r.id <= f.mark}
        if dead:
            generalise(ip, n_raises, i, n)
            if ip.simp(tm.pos(n)) is TRUE:
                raise AbsRaise()
            ip.assume(tm.bnot(tm.pos(n)))
            return []
        logs, slots, points = {}, {}, {}
        for ref, content in layer.items():
            if ref.id > mark:
                continue
            base = installed.get(ref)
            if base is None:
                base = ip.get(ref)
            t = type(content)
            if t in LOGS:
                new, old = getattr(content, LOGS[t]), getattr(base, LOGS[t])
                if t is Itr and not new and old:
                    # iterator exhausted inside the loop body
                    raise Unsupported("iterator consumed inside a summarised loop")
                if len(new) < len(old) or not all(x is y or ip.entry_same(x, y) for x, y in zip(old, new)):
                    if t is Lst and fixed(old) and fixed(new) and len(old) == len(new):
                        frame.read |= {(ref, k) for k in range(len(new))}
                        slots.update({(ref, k): x[1] for k, x in enumerate(new) if x[1] is not old[k][1]})
                        continue
                    if t is Lst and ref not in hyp:
                        points[ref] = pointwise(ip, frame, ref, new, i)
                        continue
                    raise Unsupported(f"container rewritten inside a summarised loop at {ip.site()}")
                if len(new) > len(old):
                    logs[ref] = new[len(old):]
                continue
            nd, od = slots_of(content), slots_of(base)
            for k, v in nd.items():
                o = od.get(k, UNDEF)
                if v is not o and not (isinstance(v, T) and isinstance(o, T) and v is o):
                    slots[(ref, k)] = v
        for slot in entry:
            if slot not in slots:
                slots[slot] = entry[slot]
        frame.logread |= {r for r in frame.elems if r not in points}
        for f in ip.loops:
            f.logread |= {r for r in frame.elems if r.id <= f.mark}
        need_log = [r for r in logs if r in frame.logread]
        need_phi = [s for s in slots if (s in frame.read or s not in frame.written)]
        need_phi = [s for s in need_phi if not (s not in frame.read and base_value(ip, s) is UNDEF and not fl
                                                and not mentions_undef(slots[s]))]
        ok = True
        for r in need_log:
            if r not in hyp or not same_suffix(ip, hyp[r], logs[r]):
                ok = False
                hyp[r] = logs[r]
                keep(ip, layer, mark)
        for r in list(hyp):
            if r not in logs:
                ok = False
                del hyp[r]
        for s in need_phi:
            if s not in closed:
                ok = False
        if ok:
            if None in points.values():
                raise Unsupported(f"list rewritten inside a summarised loop at {ip.site()}")
            break
        keep(ip, layer, mark)
        # recurrences for loop-carried slots
        if any(s not in entry for s in need_phi):
            for s in need_phi:
                if s not in entry or s not in closed:
                    entry[s] = make_phi(ip, s, slots[s], i)
            # re-run with symbolic entries before solving
            for s in list(closed):
                del closed[s]
                entry[s] = make_phi(ip, s, slots[s], i)
            last = None
            continue
        if any(s not in closed for s in need_phi):
            e = tm.bor(*[f[0] for f in fl]) if fl else FALSE
            solve(ip, entry, slots, need_phi, closed, i, n, e)
            for s in need_phi:
                entry[s] = closed[s](i)
            continue
    else:
        raise Unsupported("loop summary does not stabilise")
    # ---- commit
    for ref, content in layer.items():
        if ref.id > mark:
            ip.layers[-1][ref] = content
    generalise(ip, n_raises, i, n)
    for c in post:
        if i in c.vars:
            ip.assume(tm.bnot(ip.mk_exists(i, n, tm.bnot(c))))
        elif ip.simp(tm.pos(n)) is TRUE:
            ip.assume(c)
    lastk = tm.sub(n, ONE)
    if not fl:
        for ref, suf in logs.items():
            base = ip.get(ref)
            log = getattr(base, LOGS[type(base)]) + (("g", i, n, suf),)
            put_raw(ip, ref, ip.with_log(base, log))
        for ref, (k, v) in points.items():
            segs = ip.get(ref).segs
            ln = ip.plen(segs)
            b = tm.fresh("b", True, ZERO, tm.sub(ln, ONE))
            ip.stamps[b] = ip.stamps[i]
            at = tm.solve_eq(k, b, i)
            hit = ip.simp(tm.band(tm.le(ZERO, at), tm.lt(at, n)))
            val = lazy(ip, v, {i: at})
            put_raw(ip, ref, Lst((("g", b, ln, (("i", val if hit is TRUE else ip.mk_ite(hit, val, ip.at(segs, b))),)),)))
        for (ref, key), v in slots.items():
            if (ref, key) in closed:
                val = closed[(ref, key)](n)
            else:
                base = base_value(ip, (ref, key))
                v2 = lazy(ip, v, {i: lastk})
                nonempty = ip.simp(tm.pos(n))
                if nonempty is TRUE or base is UNDEF and False:
                    val = v2
                elif isinstance(v, T) and isinstance(base, T):
                    val = ip.mk_ite(tm.pos(n), v2, base)
                else:
                    val = IteV(tm.pos(n), v2, base)
            set_slot(ip, ref, key, val)
        return []
    # ---- early exit
    if points:
        raise Unsupported("elements assigned in a summarised loop that may end early")
    e = tm.bor(*[f[0] for f in fl])
    w = ip.witness(i, n, e)
    ex = TRUE if w is TRUE else ip.simp(ip.mk_exists(i, n, e))
    first = tm.first(i, n, e)
    if ex is FALSE:
        first = ZERO
    for ref, suf in logs.items():
        base = ip.get(ref)
        norm = ip.psubst(suf, {e: FALSE})
        done = ip.psubst(ip.psubst(suf, {e: TRUE}), {i: first})
        cnt = tm.ite(ex, first, n)
        log = getattr(base, LOGS[type(base)])
        if norm:
            log = log + (("g", i, cnt, norm),)
        if done:
            log = log + ((("c", ex, done, ()),) if ex is not TRUE else done)
        put_raw(ip, ref, ip.with_log(base, log))
    for (ref, key), v in slots.items():
        base = base_value(ip, (ref, key))
        v_exit = under(ip, v, e, TRUE)
        v_norm = under(ip, v, e, FALSE)
        at_exit = lazy(ip, v_exit, {i: first})
        if (ref, key) in closed:
            at_end = closed[(ref, key)](n)
        else:
            at_end = lazy(ip, v_norm, {i: lastk})
            if ip.simp(tm.pos(n)) is not TRUE:
                at_end = ip.mk_ite(tm.pos(n), at_end, base)
        val = at_exit if ex is TRUE else at_end if ex is FALSE else ip.mk_ite(ex, at_exit, at_end)
        set_slot(ip, ref, key, val)
    out = []
    for c, kind, v in fl:
        cc = ex if len(fl) == 1 else tm.band(ex, tm.subst(c, {i: first}))
        out.append((cc, kind, ip.vsubst(v, {i: first}) if v is not None else None))
    return [f for f in out if f[0] is not FALSE]


def fixed(segs):
    return all(p[0] == "i" for p in segs)


def pointwise(ip, frame, ref, segs, i):
    """(k, v): iteration i reads and assigns no element of the list but number k(i), which becomes v"""
    ks = list(frame.elems.get(ref, ()))
    if ref in frame.logread or len(ks) != 1 or i not in ks[0].vars:
        return None
    step = tm.sub(tm.subst(ks[0], {i: tm.add(i, ONE)}), ks[0])
    if step not in (ONE, tm.const(-1)):
        return None
    return ks[0], ip.at(segs, ks[0])


def mentions_undef(v):
    return v is UNDEF or (isinstance(v, IteV) and (mentions_undef(v.a) or mentions_undef(v.b)))


def under(ip, v, e, val):
    if e is FALSE:
        return v
    try:
        return ip.vsubst(v, {e: val, tm.bnot(e): tm.bnot(val)})
    except Unsupported:
        return v


def keep(ip, layer, mark):
    base = ip.layers[0]
    for r, c in layer.items():
        if r.id > mark and r not in base:
            base[r] = c


def put_raw(ip, ref, content):
    for f in ip.loops:
        pass
    ip.put(ref, content)


def lazy(ip, v, mp):
    if isinstance(v, T):
        return tm.subst(v, mp)
    if v is None or isinstance(v, (str, Sentinel)):
        return v
    return SubstV(v, mp)


def slots_of(c):
    if isinstance(c, Lst) and fixed(c.segs):
        return {k: p[1] for k, p in enumerate(c.segs)}
    if isinstance(c, Obj) or isinstance(c, Model):
        return c.attrs
    if isinstance(c, Scp):
        return c.vars
    if isinstance(c, Box):
        return {"v": c.v}
    raise Unsupported(f"loop over {type(c).__name__}")


def with_slots(c, d):
    if isinstance(c, Lst):
        return Lst(tuple(("i", d.get(k, p[1])) for k, p in enumerate(c.segs)))
    if isinstance(c, Obj):
        return Obj(c.cls, {**c.attrs, **d})
    if isinstance(c, Model):
        return Model({**c.attrs, **d})
    if isinstance(c, Scp):
        return Scp({**c.vars, **d}, c.parent, c.kind, c.extra)
    if isinstance(c, Box):
        return Box(d["v"])
    raise Unsupported("loop slot")


def base_value(ip, slot):
    return slots_of(ip.get(slot[0])).get(slot[1], UNDEF)


def set_slot(ip, ref, key, v):
    ip.note_write(ref, key)
    ip.put(ref, with_slots(ip.get(ref), {key: v}))


def generalise(ip, start, i, n):
    for rec in ip.raises[start:]:
        if i in rec.cond.vars:
            rec.cond = ip.mk_exists(i, n, rec.cond)


_phis = [0]


def phi_for(base, name, isint):
    if isinstance(base, T):
        _phis[0] += 1
        if base.isbool:
            return tm.app("phi", (f"{name}#{_phis[0]}",), isbool=True)
        return tm.sym(f"phi:{name}#{_phis[0]}", isint)
    if isinstance(base, tuple):
        return tuple(phi_for(x, name, getattr(x, "isint", False)) for x in base)
    return PhiV(f"<loop value {name}>")


def make_phi(ip, slot, new, i):
    base = base_value(ip, slot)
    if base is UNDEF:
        return UNDEF
    base = ip.vsimp(base)
    isint = isinstance(base, T) and base.isint and isinstance(new, T) and new.isint
    if isinstance(base, T) and isinstance(new, T) and not (base.isbool == new.isbool):
        base = tm.b2i(base)
    if isinstance(base, Ref) and isinstance(ip.get(base), Lst) and isinstance(ip.vsimp(new), Ref):
        return PhiV(f"<loop list {slot[1]}>")
    return phi_for(base, str(slot[1]), isint)


def solve(ip, entry, slots, need, closed, i, n, e):
    pending = list(need)
    phis = {}
    for s in need:
        for p in flat(entry[s]):
            phis[p] = s
    progress = True
    env = {}   # phi -> function of k
    while pending and progress:
        progress = False
        for s in list(pending):
            base = ip.vsimp(base_value(ip, s))
            v = slots[s]
            if isinstance(v, SubstV):
                v = ip.vsimp(v)
            if e is not FALSE:
                v = under(ip, v, e, FALSE)
            mine = set(flat(entry[s]))
            others = {p for p in phi_atoms(v, phis) if p not in mine}
            if any(p not in env for p in others):
                continue
            if others:
                mp = {p: env[p](i) for p in others if isinstance(p, T)}
                v = ip.vsubst(v, mp)
            fn = closed_form(ip, base, entry[s], v, i, n)
            closed[s] = fn
            for k, p in enumerate(flat(entry[s])):
                if isinstance(entry[s], tuple):
                    env[p] = (lambda fn, k: lambda kk: flat(fn(kk))[k])(fn, k)
                else:
                    env[p] = fn
            pending.remove(s)
            progress = True
    if pending:
        # mutually dependent values: deterministic opaque folds
        canon = {}
        order = sorted(pending, key=lambda s: str(s[1]))
        for q, s in enumerate(order):
            for r, p in enumerate(flat(entry[s])):
                if not isinstance(p, T):
                    raise Unsupported(f"loop-carried values {[s[1] for s in pending]}")
                canon[p] = tm.sym(f"#phi{q}.{r}") if not p.isbool else tm.app("#phi", (q, r), isbool=True)
        ci = tm.sym("#i", True)
        bodies = []
        for s in order:
            v = slots[s] if e is FALSE else under(ip, slots[s], e, FALSE)
            for x in flat(v):
                if not isinstance(x, T):
                    raise Unsupported("loop-carried values")
                bodies.append(tm.subst(x, {**canon, i: ci, **{p: env[p](ci) for p in env if isinstance(p, T)}}))
        bases = tuple(x for s in order for x in flat(base_value(ip, s)))
        q = 0
        for s in order:
            w = len(flat(entry[s]))
            shape_tuple = isinstance(entry[s], tuple)

            def fn(k, q=q, w=w, shape_tuple=shape_tuple):
                r = tuple(tm.app("fold", (k, q + z, bases, tuple(bodies)), isbool=bodies[q + z].isbool)
                          for z in range(w))
                return r if shape_tuple else r[0]
            closed[s] = fn
            q += w


def flat(v):
    if isinstance(v, tuple):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [v]


def phi_atoms(v, phis):
    out = set()

    def go(x):
        if isinstance(x, T):
            for p in phis:
                if isinstance(p, T):
                    if p.op == "s":
                        if p in x.vars:
                            out.add(p)
                    elif p in tm.atoms(x):
                        out.add(p)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, IteV):
            go(x.c)
            go(x.a)
            go(x.b)
        elif isinstance(x, PhiV):
            out.add(x)
    go(v)
    return out


def free_of(x, p):
    if not isinstance(p, T):
        return not has_phi(x)
    if not isinstance(x, T):
        return True
    if p.op == "s":
        return p not in x.vars
    return p not in tm.atoms(x)


def closed_form(ip, base, phi, v, i, n):
    """function k -> value after k iterations of x := v(x)"""
    if isinstance(phi, tuple):
        if not isinstance(v, tuple) or len(v) != len(phi):
            raise Unsupported("loop-carried tuple changes shape")
        if any(isinstance(p, T) and not free_of(w, p) for w in flat(v) for p in flat(phi)
               if flat(v).index(w) != flat(phi).index(p)) and False:
            raise Unsupported("coupled tuple")
        fns = [closed_form(ip, bb, p, w, i, n) for bb, p, w in zip(base, phi, v)]
        return lambda k: tuple(f(k) for f in fns)
    if phi is UNDEF or not isinstance(phi, T):
        return last_match(ip, base, phi, v, i)
    if not isinstance(v, T):
        return last_match(ip, base, phi, v, i)
    if phi.isbool:
        vt, vf = tm.subst(v, {phi: TRUE}), tm.subst(v, {phi: FALSE})
        if vt is vf:
            return last_match(ip, base, phi, vt, i)

        def orform(k, vf=vf, vt=vt):
            j = tm.fresh("j", True, ZERO, tm.sub(k, ONE))
            if vt is TRUE:
                return tm.bor(base, tm.exists(j, k, tm.subst(vf, {i: j})))
            return tm.band(base, tm.bnot(tm.exists(j, k, tm.subst(tm.bnot(vt), {i: j}))))
        if vt is TRUE or vf is FALSE:
            return orform
        raise Unsupported("loop-carried flag")
    if free_of(v, phi):
        return last_match(ip, base, phi, v, i)
    d = delta(v, phi)
    if d is not None and free_of(d, phi):
        def sumform(k):
            j = tm.fresh("j", True, ZERO, tm.sub(k, ONE))
            return tm.add(base, tm.summ(j, k, tm.subst(d, {i: j})))
        return sumform
    try:
        q = tm.div(v, phi)
    except tm.ZeroDiv:
        q = None
    if q is not None and free_of(q, phi):
        def prodform(k):
            j = tm.fresh("j", True, ZERO, tm.sub(k, ONE))
            return tm.mul(base, tm.bindop("prod", j, k, tm.subst(q, {i: j})))
        return prodform
    mm = extremum(v, phi)
    if mm is not None:
        kind, rest = mm

        def ext(k):
            j = tm.fresh("j", True, ZERO, tm.sub(k, ONE))
            m = tm.bindop(kind + "over", j, k, tm.subst(rest, {i: j}))
            r = tm.minmax(kind, [base, m])
            p = ip.simp(tm.pos(k))
            return r if p is TRUE else tm.ite(p, r, base)
        return ext
    if v.op == "ite":
        c, a, b = v.a
        if free_of(c, phi):
            if a is phi and free_of(b, phi):
                return last_match(ip, base, phi, IteV(tm.bnot(c), b, phi), i)
            if b is phi and free_of(a, phi):
                return last_match(ip, base, phi, IteV(c, a, phi), i)
    ci = tm.sym("#i", True)
    cp = tm.sym("#phi")
    body = tm.subst(v, {phi: cp, i: ci})
    return lambda k: tm.app("fold", (k, 0, (base,), (body,)))


def delta(v, phi):
    d = tm.sub(v, phi)
    if free_of(d, phi):
        return d
    if v.op == "ite" and free_of(v.a[0], phi):
        x, y = delta(v.a[1], phi), delta(v.a[2], phi)
        if x is not None and y is not None:
            return tm.ite(v.a[0], x, y)
    return None


def extremum(v, phi):
    if v.op == "f" and v.a[0] in ("max", "min") and phi in v.a[1]:
        rest = tm.minmax(v.a[0], [x for x in v.a[1] if x is not phi])
        if free_of(rest, phi):
            return v.a[0], rest
    if v.op == "ite" and v.a[0].op == "pos":
        x = v.a[0].a[0]
        for one, two, sgn in ((v.a[1], v.a[2], 1), (v.a[2], v.a[1], -1)):
            other = one if two is phi else None
            if other is not None and free_of(other, phi):
                if tm.sub(x, tm.mul(tm.const(sgn), tm.sub(other, phi))).fp == 0:
                    return "max", other
                if tm.sub(x, tm.mul(tm.const(sgn), tm.sub(phi, other))).fp == 0:
                    return "min", other
    return None


def last_match(ip, base, phi, v, i):
    """v free of phi, or gated: (x if c else phi)"""
    c, x = gate(v, phi)
    if c is FALSE:
        return lambda k: base
    if isinstance(x, T) and not free_of(x, phi) or has_phi(x) or not free_of(c, phi):
        raise Unsupported("loop-carried value has no closed form")

    def fn(k):
        kk = tm.sub(k, ONE)
        if c is TRUE:
            val = lazy(ip, x, {i: kk})
            if isinstance(val, T) and isinstance(base, T) and tm.subst(x, {i: tm.NEG1}) is base:
                return val
            p = ip.simp(tm.pos(k))
            if p is TRUE:
                return val
            if p is FALSE:
                return base
            return ip.mk_ite(p, val, base)
        j = tm.fresh("j", True, ZERO, kk)
        cj = tm.subst(c, {i: tm.sub(kk, j)})
        ex = ip.mk_exists(j, k, cj)
        last = tm.sub(kk, tm.first(j, k, cj))
        return ip.mk_ite(ex, lazy(ip, x, {i: last}), base)
    return fn


def gate(v, phi):
    """(condition, value) such that the slot becomes value under condition and keeps phi otherwise"""
    if v is phi:
        return FALSE, v
    if isinstance(v, IteV):
        c, a, b = v.c, v.a, v.b
    elif isinstance(v, T) and v.op == "ite":
        c, a, b = v.a
    else:
        return TRUE, v
    ca, xa = gate(a, phi)
    cb, xb = gate(b, phi)
    if ca is FALSE and cb is FALSE:
        return FALSE, v
    if ca is FALSE:
        return tm.band(tm.bnot(c), cb), xb
    if cb is FALSE:
        return tm.band(c, ca), xa
    if ca is TRUE and cb is TRUE:
        return TRUE, v
    return tm.ite(c, ca, cb), IteV(c, xa, xb)


def same_suffix(ip, a, b, memo=None):
    """structural equality of two logs up to the identity of freshly allocated objects"""
    memo = {} if memo is None else memo
    if len(a) != len(b):
        return False
    return all(same_val(ip, x, y, memo) for x, y in zip(a, b))


def same_val(ip, x, y, memo):
    if x is y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) == 4 and len(y) == 4 and x[0] == y[0] == "g":
            return x[2] is y[2] and same_suffix(ip, ip.psubst(x[3], {x[1]: y[1]}), y[3], memo)
        return len(x) == len(y) and all(same_val(ip, u, v, memo) for u, v in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if isinstance(x, IteV) and isinstance(y, IteV):
        return x.c is y.c and same_val(ip, x.a, y.a, memo) and same_val(ip, x.b, y.b, memo)
    if isinstance(x, Ref) and isinstance(y, Ref):
        k = (x, y)
        if k in memo:
            return memo[k]
        memo[k] = True
        try:
            cx, cy = ip.get(x), ip.get(y)
        except Unsupported:
            return False
        r = False
        if type(cx) is type(cy):
            if type(cx) in LOGS:
                r = same_suffix(ip, getattr(cx, LOGS[type(cx)]), getattr(cy, LOGS[type(cy)]), memo)
                if r and isinstance(cx, Arr):
                    r = cx.tree is cy.tree or repr(cx.tree) == repr(cy.tree)
            elif isinstance(cx, (Obj, Scp, Model)):
                dx, dy = slots_of(cx), slots_of(cy)
                r = set(dx) == set(dy) and all(same_val(ip, dx[k2], dy[k2], memo) for k2 in dx)
            elif isinstance(cx, Box):
                r = same_val(ip, cx.v, cy.v, memo)
        memo[k] = r
        return r
    if isinstance(x, FuncV) and isinstance(y, FuncV):
        return x.node is y.node and (x.scope is y.scope or same_val(ip, x.scope, y.scope, memo))
    if isinstance(x, BoundV) and isinstance(y, BoundV):
        return same_val(ip, x.fn, y.fn, memo) and same_val(ip, x.self, y.self, memo)
    return x == y if not isinstance(x, T) else False
