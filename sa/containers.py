"""Abstract lists, dictionaries, sets, ranges and strings."""
from __future__ import annotations
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from .engine import MISS

HOLE = Sentinel("<fall through>")


def ckey(v):
    """hashable key of a fully known value, or None"""
    if isinstance(v, T):
        if v.op == "c":
            return ("n", v.a[0])
        if v is TRUE:
            return ("n", Fraction(1))
        if v is FALSE:
            return ("n", Fraction(0))
        return None
    if isinstance(v, str):
        return ("s", v)
    if v is None:
        return ("N",)
    if isinstance(v, tuple):
        out = []
        for x in v:
            k = ckey(x)
            if k is None:
                return None
            out.append(k)
        return ("t", tuple(out))
    if isinstance(v, int):
        return ("n", Fraction(v))
    return None


def key_eq(ip, a, b):
    ka, kb = ckey(a), ckey(b)
    if ka is not None and kb is not None:
        return tm.cbool(ka == kb)
    return ip.simp(ip.eq(a, b))


# ------------------------------------------------------------------ keyed logs

def read(ip, log, k, rest, special=None):
    """last value written for key k in the log, gated; rest() gives the value below the log"""
    i = len(log) - 1
    kk = ckey(k)
    while i >= 0:
        e = log[i]
        tag = e[0]
        if tag == "put" or tag == "del":
            if kk is not None:
                ke = ckey(e[1])
                if ke is not None and ke != kk:
                    i -= 1
                    continue
            c = key_eq(ip, e[1], k)
            if c is FALSE:
                i -= 1
                continue
            v = e[2] if tag == "put" else MISS
            if c is TRUE:
                return v
            low = read(ip, log[:i], k, rest, special)
            return ip.mk_ite(c, v, low)
        if tag == "c":
            c = ip.simp(e[1])
            sub = log[:i]
            memo = []

            def low(sub=sub, memo=memo):
                if not memo:
                    memo.append(read(ip, sub, k, rest, special))
                return memo[0]
            if c is TRUE:
                return read(ip, e[2], k, low, special)
            if c is FALSE:
                return read(ip, e[3], k, low, special)
            a = read(ip, e[2], k, lambda: HOLE, special)
            b = read(ip, e[3], k, lambda: HOLE, special)
            if a is HOLE and b is HOLE:
                i -= 1
                continue
            a, b = fill(ip, a, low), fill(ip, b, low)
            return ip.mk_ite(c, a, b)
        if tag == "g":
            r = read_family(ip, e, k, special)
            if r is HOLE:
                i -= 1
                continue
            sub = log[:i]
            return fill(ip, r, lambda: read(ip, sub, k, rest, special))
        if special is None:
            raise Unsupported(f"log entry {tag}")
        sub = log[:i]
        r = special(e, k, lambda: read(ip, sub, k, rest, special))
        if r is HOLE:
            i -= 1
            continue
        return r
    return rest()


def fill(ip, v, low):
    if v is HOLE:
        return low()
    if isinstance(v, IteV) and ip._maybe(v, HOLE):
        return ip.mk_ite(v.c, fill(ip, v.a, low), fill(ip, v.b, low))
    return v


def apart(ip, e, k):
    """the family with its index renamed where the key mentions that very symbol"""
    _, b, n, sub = e
    if not ip.mentions(k, b):
        return e
    b2 = tm.fresh("b", True, ZERO, tm.sub(n, ONE))
    if b in ip.stamps:
        ip.stamps[b2] = ip.stamps[b]
    return ("g", b2, n, ip.psubst(sub, {b: b2}))


def read_family(ip, e, k, special):
    """value written for k by the family ('g', b, n, sub): HOLE where no instance writes it"""
    _, b, n, sub = apart(ip, e, k)
    r = read(ip, sub, k, lambda: HOLE, special)
    if r is HOLE:
        return HOLE
    m = ip.simp(tm.bnot(ip._when(r, HOLE)))
    if m is FALSE:
        return HOLE
    val = ip._without(r, HOLE) if ip._maybe(r, HOLE) else r
    if b not in m.vars:
        # every instance writes it: the last one wins
        cond = ip.simp(tm.band(m, tm.pos(n)))
        v = ip.vsubst(val, {b: tm.sub(n, ONE)})
        return v if cond is TRUE else ip.mk_ite(cond, v, HOLE)
    for cand in ip.candidates(b, m):
        if b in cand.vars:
            continue
        if not unique_at(ip, b, m, cand):
            continue
        mc = ip.simp(tm.subst(m, {b: cand}))
        cond = ip.simp(tm.band(mc, tm.le(ZERO, cand), tm.lt(cand, n)))
        if cond is FALSE:
            return HOLE
        v = ip.vsubst(val, {b: cand})
        return v if cond is TRUE else ip.mk_ite(cond, v, HOLE)
    j = tm.fresh("j", True, ZERO, tm.sub(n, ONE))
    lastk = tm.sub(n, ONE)
    cj = tm.subst(m, {b: tm.sub(lastk, j)})
    ex = ip.simp(ip.mk_exists(b, n, m))
    if ex is FALSE:
        return HOLE
    at = tm.sub(lastk, tm.first(j, n, cj))
    v = ip.vsubst(val, {b: at})
    return v if ex is TRUE else ip.mk_ite(ex, v, HOLE)


def unique_at(ip, b, m, cand):
    """m(b) forces b == cand"""
    parts = m.a if m.op == "and" else (m,)
    inj = {}
    for d in parts:
        if d.op != "zero":
            continue
        x = d.a[0]
        s = tm.solve_eq(x, ZERO, b)
        if s is cand:
            return True
        # congruence under declared injective functions of the index
        if x.op == "+":
            for a1, k1 in x.a[1]:
                if a1.op == "f" and b in a1.vars and a1.a[0] in ip.injective:
                    fam, need = ip.injective[a1.a[0]]
                    flat = tm._flat(a1.a[1])
                    comp, idx = (None, flat[0]) if need == 1 else (flat[0], flat[1])
                    if idx is b or tm.solve_eq(idx, idx, b) is not None:
                        inj.setdefault((fam, idx), set()).add(comp)
                        if len(inj[(fam, idx)]) >= need:
                            return True
    return False


# ------------------------------------------------------------------ pieces

def iterate(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, tuple):
        return tuple(("i", x) for x in v)
    if isinstance(v, str):
        return tuple(("i", x) for x in v)
    if isinstance(v, RangeV):
        return range_pieces(ip, v)
    if isinstance(v, IteV):
        return (("c", v.c, iterate(ip, v.a), iterate(ip, v.b)),)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Lst):
            ip.note_log(v)
            return c.segs
        if isinstance(c, Itr):
            ip.note_log(v)
            ip.put(v, Itr(()))
            return c.segs
        if isinstance(c, Dct):
            ip.note_log(v)
            return dict_keys(ip, c.log)
        if isinstance(c, St):
            ip.note_log(v)
            ps = set_pieces(ip, c.log)
            if ip.reverse_sets and all(p[0] == "i" and isinstance(p[1], str) for p in ps):
                return tuple(ps)[::-1]
            return ps
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__iter__")
            if f is not None:
                return iterate(ip, ip.call_method(f, v, [], {}))
            f = ip.find(c.cls, "__getitem__")
            ln = ip.find(c.cls, "__len__")
            if f is not None and ln is not None:
                n = ip.call_method(ln, v, [], {})
                if isinstance(n, T) and n.op == "c":
                    return tuple(("i", ip.call_method(f, v, [tm.const(i)], {})) for i in range(int(n.a[0])))
                raise Unsupported("iteration through __getitem__")
            if ip.bm.nt_fields(c) is not None:
                return tuple(("i", c.attrs[k]) for k in ip.bm.nt_fields(c))
            ip.raise_("TypeError", "object is not iterable")
        return ip.bm.lib_iterate(ip, v, c)
    if isinstance(v, ClassV):
        mem = ip.bm.enum_members(ip, v)
        if mem is not None:
            return tuple(("i", m) for m in mem)
    if isinstance(v, ExtV):
        if "iter" in v.data:
            return v.data["iter"]
        raise Unsupported(f"iteration over {v!r}")
    if isinstance(v, T) or v is None:
        ip.raise_("TypeError", "object is not iterable")
    raise Unsupported(f"iteration over {v!r}")


def range_len(ip, r):
    d = tm.sub(r.stop, r.start)
    if r.step is ONE:
        return d if tm.nonneg(d) else tm.minmax("max", [ZERO, d])
    if r.step.op == "c":
        s = r.step.a[0]
        if d.op == "c":
            import math
            return tm.const(max(0, math.ceil(d.a[0] / s)))
        if s > 0:
            q = tm.floordiv(tm.add(d, tm.const(s - 1)), r.step)
        else:
            q = tm.floordiv(tm.add(tm.neg(d), tm.const(-s - 1)), tm.const(-s))
        return q if tm.nonneg(q) else tm.minmax("max", [ZERO, q])
    raise Unsupported("range with a symbolic step")


def range_pieces(ip, r):
    n = range_len(ip, r)
    if n.op == "c":
        k = int(n.a[0])
        if k <= 4096:
            return tuple(("i", tm.add(r.start, tm.mul(tm.const(i), r.step))) for i in range(k))
    b = tm.fresh("k", True, ZERO, tm.sub(n, ONE))
    ip.stamps[b] = Ref._n
    return (("g", b, n, (("i", tm.add(r.start, tm.mul(b, r.step))),)),)


def length(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, IteV):
        return tm.ite(v.c, length(ip, v.a), length(ip, v.b))
    if isinstance(v, (tuple, str)):
        return tm.const(len(v))
    if isinstance(v, RangeV):
        return range_len(ip, v)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Lst):
            ip.note_log(v)
            return ip.plen(c.segs)
        if isinstance(c, Dct):
            ip.note_log(v)
            return ip.plen(dict_keys(ip, c.log))
        if isinstance(c, St):
            ip.note_log(v)
            return ip.plen(set_pieces(ip, c.log))
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__len__")
            if f is not None:
                return ip.call_method(f, v, [], {})
            if ip.bm.nt_fields(c) is not None:
                return tm.const(len(ip.bm.nt_fields(c)))
            ip.raise_("TypeError", "object has no len()")
        return ip.bm.lib_len(ip, v, c)
    if isinstance(v, StrV):
        return tm.app("strlen", (str_key(v),), True)
    if isinstance(v, ExtV):
        raise Unsupported(f"len of {v!r}")
    ip.raise_("TypeError", "object has no len()")


def all_items(pieces):
    return all(p[0] == "i" for p in pieces)


def zip_pieces(ip, lists):
    """pieces whose items are tuples of corresponding items"""
    if not lists:
        return ()
    if all(all_items(l) for l in lists):
        return tuple(("i", t) for t in zip(*[[p[1] for p in l] for l in lists]))
    conc = [ip.concrete(l) if not all_items(l) else [p[1] for p in l] for l in lists]
    if all(c is not None for c in conc):
        return tuple(("i", t) for t in zip(*conc))
    out = []
    qs = [list(l) for l in lists]
    while all(qs):
        heads = [q[0] for q in qs]
        kinds = {h[0] for h in heads}
        if kinds == {"i"}:
            out.append(("i", tuple(h[1] for h in heads)))
            for q in qs:
                q.pop(0)
            continue
        if kinds == {"g"}:
            ns = [h[2] for h in heads]
            n = ns[0]
            lasts = [len(q) == 1 for q in qs]
            if all(x is n for x in ns):
                pass
            else:
                best = None
                for cand in ns:
                    if all(cand is x or ip.simp(tm.le(cand, x)) is TRUE for x in ns):
                        best = cand
                        break
                if best is None and all(lasts):
                    best = tm.minmax("min", ns)
                if best is None or not all(l or x is best for l, x in zip(lasts, ns)):
                    # everything after the shortest piece is cut off only if it ends its list
                    short = [l for l, x in zip(lasts, ns) if x is best]
                    if best is None or not any(short):
                        raise Unsupported("zip of differently structured sequences")
                n = best
                b = tm.fresh("k", True, ZERO, tm.sub(n, ONE))
                ip.stamps[b] = min(ip.stamps.get(h[1], Ref._n) for h in heads)
                subs = [ip.psubst(h[3], {h[1]: b}) for h in heads]
                return tuple(out) + (("g", b, n, zip_pieces(ip, subs)),)
            b = heads[0][1]
            subs = [heads[0][3]] + [ip.psubst(h[3], {h[1]: b}) for h in heads[1:]]
            lens = [ip.plen(s) for s in subs]
            if not all(x is lens[0] for x in lens):
                raise Unsupported("zip of ragged sequences")
            out.append(("g", b, n, zip_pieces(ip, subs)))
            for q in qs:
                q.pop(0)
            continue
        if kinds == {"c"} and all(h[1] is heads[0][1] for h in heads):
            c = heads[0][1]
            la, lb = [ip.plen(h[2]) for h in heads], [ip.plen(h[3]) for h in heads]
            if all(x is la[0] for x in la) and all(x is lb[0] for x in lb):
                out.append(("c", c, zip_pieces(ip, [h[2] for h in heads]), zip_pieces(ip, [h[3] for h in heads])))
                for q in qs:
                    q.pop(0)
                continue
        if "c" in kinds:
            for q in qs:
                if q[0][0] == "c":
                    c = q[0][1]
                    rest = [list(x) for x in qs]
                    a = [(list(x[0][2]) + x[1:]) if x is q else x for x in qs]
                    b = [(list(x[0][3]) + x[1:]) if x is q else x for x in qs]
                    return tuple(out) + (("c", c, zip_pieces(ip, a), zip_pieces(ip, b)),)
        if kinds == {"i", "g"}:
            # peel one instance off the families
            ok = True
            for q in qs:
                h = q[0]
                if h[0] == "g":
                    if ip.simp(tm.pos(h[2])) is not TRUE:
                        ok = False
            if not ok:
                raise Unsupported("zip of a family with items")
            for q in qs:
                h = q[0]
                if h[0] == "g":
                    firsts = ip.psubst(h[3], {h[1]: ZERO})
                    m = tm.sub(h[2], ONE)
                    b = tm.fresh("k", True, ZERO, tm.sub(m, ONE))
                    ip.stamps[b] = ip.stamps.get(h[1], Ref._n)
                    later = ip.psubst(h[3], {h[1]: tm.add(b, ONE)})
                    q[0:1] = list(firsts) + ([("g", b, m, later)] if m is not ZERO else [])
            continue
        raise Unsupported("zip of differently structured sequences")
    return tuple(out)


def enumerate_pieces(ip, pieces, start):
    out = []
    off = start
    for p in pieces:
        if p[0] == "i":
            out.append(("i", (off, p[1])))
        elif p[0] == "g":
            _, b, n, sub = p
            ln = ip.plen(sub)
            if b in ln.vars:
                j = tm.fresh("j", True, ZERO, tm.sub(b, ONE))
                base = tm.add(off, tm.summ(j, b, tm.subst(ln, {b: j})))
            else:
                base = tm.add(off, tm.mul(b, ln))
            out.append(("g", b, n, enumerate_pieces(ip, sub, base)))
        elif p[0] == "c":
            out.append(("c", p[1], enumerate_pieces(ip, p[2], off), enumerate_pieces(ip, p[3], off)))
        off = tm.add(off, ip.plen((p,)))
    return tuple(out)


def reverse_pieces(ip, pieces):
    out = []
    for p in reversed(pieces):
        if p[0] == "g":
            _, b, n, sub = p
            out.append(("g", b, n, reverse_pieces(ip, ip.psubst(sub, {b: tm.sub(tm.sub(n, ONE), b)}))))
        elif p[0] == "c":
            out.append(("c", p[1], reverse_pieces(ip, p[2]), reverse_pieces(ip, p[3])))
        else:
            out.append(p)
    return tuple(out)


def slice_bounds(ip, sl, n):
    """(lo, hi, step) clamped; step is a python int"""
    step = 1 if sl.step is None else sl.step
    if isinstance(step, T):
        if step.op != "c":
            raise Unsupported("slice step")
        step = int(step.a[0])

    def norm(x, default):
        if x is None:
            return default
        if not isinstance(x, T):
            raise Unsupported("slice bound")
        neg = ip.simp(tm.lt(x, ZERO))
        if neg is TRUE:
            x = tm.add(x, n)
            return x if tm.nonneg(x) else tm.minmax("max", [ZERO, x])
        if neg is not FALSE:
            raise Unsupported("slice bound of unknown sign")
        return x if ip.simp(tm.le(x, n)) is TRUE else tm.minmax("min", [x, n])
    if step > 0:
        return norm(sl.lo, ZERO), norm(sl.hi, n), step
    if sl.lo is None and sl.hi is None:
        return ZERO, n, step
    raise Unsupported("slice with a negative step")


def slice_pieces(ip, pieces, sl):
    conc = [p[1] for p in pieces] if all_items(pieces) else ip.concrete(pieces)
    if conc is not None and all(x is None or isinstance(x, T) and x.op == "c" for x in (sl.lo, sl.hi, sl.step)):
        s = slice(*[None if x is None else int(x.a[0]) for x in (sl.lo, sl.hi, sl.step)])
        return tuple(("i", x) for x in conc[s])
    n = ip.plen(pieces)
    lo, hi, step = slice_bounds(ip, sl, n)
    if step == -1:
        return reverse_pieces(ip, pieces)
    if step != 1:
        raise Unsupported("strided slice")
    if lo is ZERO and hi is n:
        return tuple(pieces)
    out = []
    off = ZERO
    for p in pieces:
        ln = ip.plen((p,))
        end = tm.add(off, ln)
        if ip.simp(tm.le(end, lo)) is TRUE or ip.simp(tm.le(hi, off)) is TRUE:
            off = end
            continue
        if ip.simp(tm.le(lo, off)) is TRUE and ip.simp(tm.le(end, hi)) is TRUE:
            out.append(p)
            off = end
            continue
        if p[0] == "i":
            c = ip.simp(tm.band(tm.le(lo, off), tm.lt(off, hi)))
            out.append(("c", c, (p,), ()))
        elif p[0] == "g" and len(p[3]) == 1 and p[3][0][0] == "i":
            _, b, m, sub = p
            a = tm.sub(lo, off)
            a = a if tm.nonneg(a) else (ZERO if tm.nonneg(tm.neg(a)) else tm.minmax("max", [ZERO, a]))
            z = tm.sub(hi, off)
            z = z if ip.simp(tm.le(z, m)) is TRUE else (m if ip.simp(tm.le(m, z)) is TRUE else tm.minmax("min", [m, z]))
            cnt = tm.sub(z, a)
            if not tm.nonneg(cnt):
                cnt = tm.minmax("max", [ZERO, cnt])
            bb = tm.fresh("k", True, ZERO, tm.sub(cnt, ONE))
            ip.stamps[bb] = ip.stamps.get(b, Ref._n)
            out.append(("g", bb, cnt, ip.psubst(sub, {b: tm.add(bb, a)})))
        else:
            raise Unsupported("slice through a nested family")
        off = end
    return tuple(out)


# ------------------------------------------------------------------ dictionaries and sets

def member_soft(ip, pieces, x):
    if not pieces:
        return FALSE
    kx = ckey(x)
    if kx is not None:
        rest = []
        for p in pieces:
            if p[0] == "i":
                kp = ckey(p[1])
                if kp is not None:
                    if kp == kx:
                        return TRUE
                    continue
            rest.append(p)
        if not rest:
            return FALSE
        pieces = rest
    return ip.simp(ip.member(pieces, x))


def dedupe(ip, pieces, seen):
    """pieces without the items occurring in seen or earlier in pieces"""
    out = []
    known = {ckey(p[1]) for p in seen if p[0] == "i"} - {None}
    plain = all(p[0] == "i" and ckey(p[1]) is not None for p in seen)
    for p in pieces:
        if p[0] == "i":
            k = ckey(p[1])
            if k is not None and plain:
                if k in known:
                    continue
                known.add(k)
                out.append(p)
                seen = seen + (p,)
                continue
            plain = False
            c = member_soft(ip, seen, p[1])
            q = (p,) if c is FALSE else () if c is TRUE else (("c", c, (), (p,)),)
        elif p[0] == "c":
            a, b = dedupe(ip, p[2], seen), dedupe(ip, p[3], seen)
            plain = False
            q = (("c", p[1], a, b),) if a or b else ()
        else:
            plain = False
            _, b, n, sub = p
            inner = dedupe(ip, sub, seen)
            inner = tuple(self_dedupe(ip, x, b, sub) for x in inner)
            q = (("g", b, n, inner),) if inner else ()
        out.extend(q)
        seen = seen + q
    return tuple(out)


def self_dedupe(ip, piece, b, sub):
    """drop the instances of a family item already produced by an earlier instance"""
    def cond(v):
        j = tm.fresh("j", True, ZERO, tm.sub(b, ONE))
        earlier = ip.psubst(sub, {b: j})
        m = ip.simp(ip.member(earlier, v))
        if m is FALSE:
            return FALSE
        # linear keys are injective in the index
        return ip.simp(ip.mk_exists(j, b, refute(ip, m, j, b)))
    if piece[0] == "i":
        c = cond(piece[1])
        return piece if c is FALSE else ("c", c, (), (piece,))
    if piece[0] == "c":
        return ("c", piece[1], tuple(self_dedupe(ip, x, b, sub) for x in piece[2]),
                tuple(self_dedupe(ip, x, b, sub) for x in piece[3]))
    _, b2, n2, sub2 = piece
    return ("g", b2, n2, tuple(self_dedupe(ip, x, b, sub) for x in sub2))


def refute(ip, m, j, b):
    if unique_at(ip, j, m, b):
        return FALSE    # forces j == b, but j < b
    return m


def dict_keys(ip, log):
    return _fold_log(ip, log, lambda e: e[1])


def _fold_log(ip, log, item):
    pieces = ()
    run = []

    def flush():
        nonlocal pieces, run
        if run:
            pieces = pieces + dedupe(ip, tuple(run), pieces)
            run = []
    for e in log:
        if e[0] in ("put", "add"):
            run.append(("i", item(e)))
        elif e[0] in ("del", "rem"):
            flush()
            pieces = drop(ip, pieces, lambda x, e=e: key_eq(ip, item(e), x))
        elif e[0] == "c":
            flush()
            c = ip.simp(e[1])
            if c is TRUE or c is FALSE:
                sub = e[2] if c is TRUE else e[3]
                pieces = _fold_log(ip, tuple(_as_entries(pieces)) + tuple(sub), item)
                continue
            if not has_removal(e[2]) and not has_removal(e[3]):
                a = dedupe(ip, as_pieces(e[2], item), pieces)
                b = dedupe(ip, as_pieces(e[3], item), pieces)
                if a or b:
                    pieces = pieces + (("c", c, a, b),)
            else:
                pre = tuple(_as_entries(pieces))
                a = _fold_log(ip, pre + tuple(e[2]), item)
                b = _fold_log(ip, pre + tuple(e[3]), item)
                pieces = (("c", c, a, b),)
        elif e[0] == "g":
            if not has_removal(e[3]):
                run.append(("g", e[1], e[2], as_pieces(e[3], item)))
            else:
                flush()
                if has_addition(e[3]):
                    raise Unsupported("mixed set updates in a loop")
                _, b, n, sub = e

                def gone(x, b=b, n=n, sub=sub):
                    m = ip.simp(ip.member(as_pieces(sub, item), x))
                    if m is FALSE:
                        return FALSE
                    if ip.witness(b, n, m) is TRUE:
                        return TRUE
                    return ip.simp(ip.mk_exists(b, n, m))
                pieces = drop(ip, pieces, gone)
        elif e[0] == "all":
            flush()
            pieces = e[1]
        else:
            raise Unsupported(f"log entry {e[0]}")
    flush()
    return pieces


def _as_entries(pieces):
    yield ("all", pieces)


def as_pieces(entries, item):
    out = []
    for e in entries:
        if e[0] in ("put", "add", "del", "rem"):
            out.append(("i", item(e)))
        elif e[0] == "c":
            out.append(("c", e[1], as_pieces(e[2], item), as_pieces(e[3], item)))
        elif e[0] == "g":
            out.append(("g", e[1], e[2], as_pieces(e[3], item)))
        else:
            raise Unsupported("log entry")
    return tuple(out)


def has_removal(es):
    return any(e[0] in ("del", "rem") or (e[0] == "c" and (has_removal(e[2]) or has_removal(e[3]))) or
               (e[0] == "g" and has_removal(e[3])) for e in es)


def has_addition(es):
    return any(e[0] in ("put", "add") or (e[0] == "c" and (has_addition(e[2]) or has_addition(e[3]))) or
               (e[0] == "g" and has_addition(e[3])) for e in es)


def drop(ip, pieces, gone):
    out = []
    for p in pieces:
        if p[0] == "i":
            c = gone(p[1])
            if c is TRUE:
                continue
            out.append(p if c is FALSE else ("c", c, (), (p,)))
        elif p[0] == "c":
            a, b = drop(ip, p[2], gone), drop(ip, p[3], gone)
            if a or b:
                out.append(("c", p[1], a, b))
        else:
            s = drop(ip, p[3], gone)
            if s:
                out.append(("g", p[1], p[2], s))
    return tuple(out)


_set_memo = {}


def set_pieces(ip, log):
    if not ip.assumed:
        key = (id(log),)
        r = _set_memo.get(key)
        if r is not None and r[0] is log:
            return r[1]
        p = _fold_log(ip, log, lambda e: e[1])
        _set_memo[key] = (log, p)
        return p
    return _fold_log(ip, log, lambda e: e[1])


def map_values(ip, pieces, f):
    out = []
    for p in pieces:
        if p[0] == "i":
            out.append(("i", f(p[1])))
        elif p[0] == "c":
            out.append(("c", p[1], map_values(ip, p[2], f), map_values(ip, p[3], f)))
        else:
            out.append(("g", p[1], p[2], map_values(ip, p[3], f)))
    return tuple(out)


def dict_get(ip, ref, k):
    """gated value, MISS where absent"""
    c = ip.get(ref)
    ip.note_log(ref)
    return read(ip, c.log, k, lambda: MISS)


def dict_put(ip, ref, k, v):
    c = ip.get(ref)
    ip.put(ref, Dct(c.log + (("put", k, v),), c.default))


def dict_items(ip, c):
    return map_values(ip, dict_keys(ip, c.log), lambda k: (k, read(ip, c.log, k, lambda: MISS)))


def entries_from(ip, pieces, make):
    out = []
    for p in pieces:
        if p[0] == "i":
            out.append(make(p[1]))
        elif p[0] == "c":
            out.append(("c", p[1], entries_from(ip, p[2], make), entries_from(ip, p[3], make)))
        else:
            out.append(("g", p[1], p[2], entries_from(ip, p[3], make)))
    return tuple(out)


def set_add_log(ip, ref, entries):
    c = ip.get(ref)
    ip.put(ref, St(c.log + tuple(entries)))


def hashable(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, tuple):
        for x in v:
            hashable(ip, x)
    elif isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, (Lst, Dct, Arr)) or (isinstance(c, St) and not getattr(c, "frozen", False)):
            ip.raise_("TypeError", "unhashable type")
        if isinstance(c, Obj):
            t = ip.bm.nt_tuple(ip, v)
            if t is not None:
                return hashable(ip, t)
            if ip.find(c.cls, "__eq__") is not None and ip.find(c.cls, "__hash__") is None:
                ip.raise_("TypeError", f"unhashable type: '{c.cls.name}'")


# ------------------------------------------------------------------ folds

def fold_prod(ip, pieces, start):
    total = start
    for p in pieces:
        if p[0] == "i":
            total = ip.binop("mul", total, p[1])
        elif p[0] == "g":
            s = fold_prod(ip, p[3], ONE)
            if not isinstance(s, T):
                raise Unsupported("product of objects over a family")
            total = ip.binop("mul", total, tm.bindop("prod", p[1], p[2], s))
        else:
            a, b = fold_prod(ip, p[2], ONE), fold_prod(ip, p[3], ONE)
            total = ip.binop("mul", total, ip.mk_ite(p[1], a, b))
    return total


def fold_sum(ip, pieces, start, op="add"):
    if op == "mul":
        return fold_prod(ip, pieces, start)
    total = start
    if not pieces:
        return total
    terms_ok = isinstance(total, T)
    acc = [total] if terms_ok else None
    for p in pieces:
        if p[0] == "i":
            x = ip.vsimp(p[1])
            if acc is not None and isinstance(x, T):
                acc.append(tm.b2i(x) if x.isbool else x)
                continue
            if acc is not None:
                total = tm.add(*acc)
                if isinstance(x, Ref) and total is start and isinstance(ip.get(x), Obj):
                    pass
                acc = None
            total = ip.binop(op, total, p[1])
            if isinstance(total, T):
                acc = [total]
        elif p[0] == "g":
            s = fold_sum(ip, p[3], ZERO)
            if not isinstance(s, T):
                raise Unsupported("sum of objects over a family")
            s = tm.summ(p[1], p[2], s)
            if acc is not None:
                acc.append(s)
            else:
                total = ip.binop(op, total, s)
        elif p[0] == "c":
            a, b = fold_sum(ip, p[2], ZERO), fold_sum(ip, p[3], ZERO)
            s = ip.mk_ite(p[1], a, b)
            if acc is not None and isinstance(s, T):
                acc.append(s)
            else:
                total = ip.binop(op, tm.add(*acc) if acc is not None else total, s)
                acc = [total] if isinstance(total, T) else None
    return tm.add(*acc) if acc is not None else total


def fold_ext(ip, pieces, kind):
    """extremum of the items (a term) or None when certainly empty"""
    vals = []
    conds = []
    for p in pieces:
        if p[0] == "i":
            x = ip.vsimp(p[1])
            if isinstance(x, IteV):
                x = to_num(ip, x)
            if not isinstance(x, T):
                raise Unsupported(f"{kind} of non-numbers")
            vals.append(x)
        elif p[0] == "g":
            s = fold_ext(ip, p[3], kind)
            if s is None:
                continue
            m = tm.bindop(kind + "over", p[1], p[2], s)
            if ip.simp(tm.pos(p[2])) is TRUE:
                vals.append(m)
            else:
                conds.append((tm.pos(p[2]), m))
        elif p[0] == "c":
            a, b = fold_ext(ip, p[2], kind), fold_ext(ip, p[3], kind)
            if a is not None and b is not None:
                vals.append(tm.ite(p[1], a, b))
            elif a is not None:
                conds.append((p[1], a))
            elif b is not None:
                conds.append((tm.bnot(p[1]), b))
    r = tm.minmax(kind, vals) if vals else None
    for c, m in conds:
        if r is None:
            if len(conds) > 1:
                raise Unsupported("extremum of a possibly empty sequence")
            return m
        r = tm.ite(c, tm.minmax(kind, [r, m]), r)
    return r


def to_num(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, T):
        return v
    if isinstance(v, IteV):
        a, b = to_num(ip, v.a), to_num(ip, v.b)
        if isinstance(a, T) and isinstance(b, T) and a.isbool == b.isbool:
            return tm.ite(v.c, a, b)
    raise Unsupported("not a number")


def fold_any(ip, pieces, truth):
    out = []
    for p in pieces:
        if p[0] == "i":
            c = truth(p[1])
        elif p[0] == "g":
            inner = ip.simp(fold_any(ip, p[3], truth))
            if inner is FALSE:
                continue
            w = ip.witness(p[1], p[2], inner)
            c = TRUE if w is TRUE else ip.simp(ip.mk_exists(p[1], p[2], inner))
        else:
            c = tm.ite(p[1], fold_any(ip, p[2], truth), fold_any(ip, p[3], truth))
        c = ip.simp(c)
        if c is TRUE:
            return TRUE
        out.append(c)
    return tm.bor(*out)


def first_item(ip, pieces):
    """(condition that there is one, the first item)"""
    alts = []
    before = TRUE
    for p in pieces:
        if p[0] == "i":
            alts.append((TRUE, p[1]))
            break
        if p[0] == "c":
            ca, va = first_item(ip, p[2])
            cb, vb = first_item(ip, p[3])
            c = ip.simp(tm.ite(p[1], ca, cb))
            if c is FALSE:
                continue
            v = va if cb is FALSE else vb if ca is FALSE else ip.mk_ite(p[1], va, vb)
            alts.append((c, v))
        else:
            _, b, n, sub = p
            c, v = first_item(ip, sub)
            c = ip.simp(c)
            if c is FALSE:
                continue
            if c is TRUE:
                alts.append((ip.simp(tm.pos(n)), ip.vsubst(v, {b: ZERO})))
            else:
                w = ip.witness(b, n, c)
                ex = TRUE if w is TRUE else ip.simp(ip.mk_exists(b, n, c))
                if ex is FALSE:
                    continue
                at = unique_index(ip, b, n, c)
                if at is None:
                    at = tm.first(b, n, c)
                alts.append((ex, ip.vsubst(v, {b: at})))
        if alts and alts[-1][0] is TRUE:
            break
    if not alts:
        return FALSE, MISS
    cond = ip.simp(tm.bor(*[c for c, _ in alts]))
    v = alts[-1][1]
    for c, x in reversed(alts[:-1]):
        v = ip.mk_ite(c, x, v)
    return cond, v


def unique_index(ip, b, n, c):
    for cand in ip.candidates(b, c):
        if b not in cand.vars and unique_at(ip, b, c, cand) and ip.in_range(cand, n):
            return cand
    return None


# ------------------------------------------------------------------ strings

def str_join(parts):
    out = []
    for p in parts:
        if isinstance(p, StrV):
            ps = p.parts if not (p.parts and p.parts[0] == "fmt") else (p,)
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            else:
                out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrV(out)


def str_key(v):
    def k(x):
        if isinstance(x, T):
            return ("T", x.fp)
        if isinstance(x, str):
            return ("s", x)
        if isinstance(x, StrV):
            return ("v",) + tuple(k(y) for y in x.parts)
        if isinstance(x, tuple):
            return ("t",) + tuple(k(y) for y in x)
        if isinstance(x, IteV):
            return ("i", x.c.fp, k(x.a), k(x.b))
        return ("o", getattr(x, "id", getattr(x, "key", repr(x))))
    return repr(k(v))


def str_eq(ip, a, b):
    ka, kb = str_key(a), str_key(b)
    if ka == kb:
        return TRUE
    return tm.app("streq", tuple(sorted((ka, kb))), isbool=True)


def to_str(ip, v, conv=-1):
    v = ip.vsimp(v)
    if isinstance(v, str):
        return repr(v) if conv == 114 else v
    if isinstance(v, StrV):
        return v
    if v is None:
        return "None"
    if isinstance(v, T):
        if v.op == "c" and v.a[0].denominator == 1:
            return str(v.a[0])
        if v is TRUE or v is FALSE:
            return str(v is TRUE)
        return StrV((v,))
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            for name in (("__repr__",) if conv == 114 else ("__str__", "__repr__")):
                f = ip.find(c.cls, name)
                if f is not None:
                    return ip.call_method(f, v, [], {})
    return StrV((v if not isinstance(v, IteV) else ("gated", v.c, str_key(v)),))
