"""Model of the numpy arrays and functions."""
from __future__ import annotations
import math
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from . import containers as ct
from .engine import MISS

LIMIT = 4096
NOVIEW = object()


def fn(name, f):
    return BuiltinV(name, f)


# ------------------------------------------------------------------ shapes, elements

def tree_shape(ip, t):
    if isinstance(t, tuple) and t and t[0] == "const":
        if not t[1]:
            return (ZERO,)
        return (tm.const(len(t[1])),) + tree_shape(ip, t[1][0])
    if isinstance(t, tuple) and t and t[0] == "sym":
        return (t[1],) + tree_shape(ip, t[3])
    if isinstance(t, tuple) and t and t[0] == "view":
        return t[3]
    return ()


def is_tree(t):
    return isinstance(t, tuple) and len(t) > 1 and t[0] in ("const", "sym", "view")


def shape(ip, ref):
    return tree_shape(ip, ip.get(ref).tree)


def tree_at(ip, t, idx):
    """element of a tree at a full index"""
    if not idx:
        return t
    i = idx[0]
    if t[0] == "const":
        if i.op == "c":
            k = int(i.a[0])
            if not 0 <= k < len(t[1]):
                return ZERO  # unreachable under the caller's bounds
            return tree_at(ip, t[1][k], idx[1:])
        vals = [tree_at(ip, c, idx[1:]) for c in t[1]]
        if not vals:
            return ZERO
        v = vals[-1]
        for k in reversed(range(len(vals) - 1)):
            v = ip.mk_ite(tm.eq(i, tm.const(k)), vals[k], v)
        return v
    if t[0] == "sym":
        inner = tree_at(ip, t[3], idx[1:])
        return ip.vsubst(inner, {t[2]: i})
    raise Unsupported("array element")


def base_index(pattern, idx):
    return tuple(p[1] if p[0] == "fix" else tm.add(p[2], tm.mul(p[3], idx[p[1]])) for p in pattern)


def elem(ip, ref, idx):
    """element at a full index (bounds are the caller's duty)"""
    c = ip.get(ref)
    ip.note_log(ref)
    t = c.tree
    if isinstance(t, tuple) and t and t[0] == "view":
        return elem(ip, t[1], base_index(t[2], idx))
    if not c.log:
        return ip.vsimp(tree_at(ip, t, idx))
    return ip.vsimp(ct.read(ip, c.log, tuple(idx), lambda: tree_at(ip, t, idx)))


def write(ip, ref, entries):
    """entries keyed by full indices of ref"""
    c = ip.get(ref)
    t = c.tree
    if isinstance(t, tuple) and t and t[0] == "view":
        pat = t[2]

        def tr(es):
            out = []
            for e in es:
                if e[0] == "put":
                    out.append(("put", base_index(pat, e[1]), e[2]))
                elif e[0] == "g":
                    out.append(("g", e[1], e[2], tr(e[3])))
                else:
                    out.append(("c", e[1], tr(e[2]), tr(e[3])))
            return tuple(out)
        write(ip, t[1], tr(entries))
        return
    ip.note_log(ref)
    ip.put(ref, Arr(t, c.log + tuple(entries)))


def build_tree(ip, shp, f, idx=()):
    if not shp:
        v = f(idx)
        return v
    n = shp[0]
    if n.op == "c" and n.a[0] <= LIMIT:
        return ("const", tuple(build_tree(ip, shp[1:], f, idx + (tm.const(k),)) for k in range(int(n.a[0]))))
    b = tm.fresh("a", True, ZERO, tm.sub(n, ONE))
    ip.stamps[b] = Ref._n
    return ("sym", n, b, build_tree(ip, shp[1:], f, idx + (b,)))


def build(ip, shp, f):
    t = build_tree(ip, shp, f)
    if not shp:
        return t
    return ip.new(Arr(t))


def copy_arr(ip, ref):
    c = ip.get(ref)
    ip.note_log(ref)
    if isinstance(c.tree, tuple) and c.tree and c.tree[0] == "view":
        return build(ip, c.tree[3], lambda i: elem(ip, ref, i))
    return ip.new(Arr(c.tree, c.log))


def view(ip, ref, pattern, shp):
    """pattern over the dimensions of ref"""
    c = ip.get(ref)
    t = c.tree
    if isinstance(t, tuple) and t and t[0] == "view":
        comb = []
        for p in t[2]:
            if p[0] == "fix":
                comb.append(p)
                continue
            q = pattern[p[1]]
            if q[0] == "fix":
                comb.append(("fix", tm.add(p[2], tm.mul(p[3], q[1]))))
            else:
                comb.append(("ax", q[1], tm.add(p[2], tm.mul(p[3], q[2])), tm.mul(p[3], q[3])))
        return ip.new(Arr(("view", t[1], tuple(comb), tuple(shp))))
    return ip.new(Arr(("view", ref, tuple(pattern), tuple(shp))))


def tree_subst(ip, t, mp):
    if isinstance(t, tuple) and t and t[0] == "const":
        return ("const", tuple(tree_subst(ip, c, mp) for c in t[1]))
    if isinstance(t, tuple) and t and t[0] == "sym":
        return ("sym", ip.vsubst(t[1], mp), t[2], tree_subst(ip, t[3], {k: v for k, v in mp.items() if k is not t[2]}))
    if isinstance(t, tuple) and t and t[0] == "view":
        pat = tuple(("fix", ip.vsubst(p[1], mp)) if p[0] == "fix" else
                    ("ax", p[1], ip.vsubst(p[2], mp), ip.vsubst(p[3], mp)) for p in t[2])
        return ("view", ip.vsubst(t[1], mp), pat, tuple(ip.vsubst(s, mp) for s in t[3]))
    return ip.vsubst(t, mp)


# ------------------------------------------------------------------ conversion

def val_tree(ip, v):
    v = ip.vsimp(v)
    t = ip.bm.nt_tuple(ip, v)
    if t is not None:
        v = t
    if isinstance(v, IteV):
        a, b = val_tree(ip, v.a), val_tree(ip, v.b)
        return merge_tree(ip, v.c, a, b)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Arr):
            shp = shape(ip, v)
            if not c.log and not (isinstance(c.tree, tuple) and c.tree and c.tree[0] == "view"):
                return c.tree
            return build_tree(ip, shp, lambda i: elem(ip, v, i))
        if isinstance(c, Lst):
            return pieces_tree(ip, ip.iter(v))
        if isinstance(c, Sym):
            from . import lib_sympy
            return pieces_tree(ip, lib_sympy.rows(ip, v, c))
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__array__")
            if f is not None:
                return val_tree(ip, ip.call_method(f, v, [], {}))
            if ip.find(c.cls, "__len__") is not None and ip.find(c.cls, "__getitem__") is not None:
                return pieces_tree(ip, ip.iter(v))
            return v
        if isinstance(c, (Dct, St, Itr, Model, Comp)):
            raise Unsupported("array of containers")
    if isinstance(v, (tuple, RangeV)):
        return pieces_tree(ip, ip.iter(v))
    return v


def merge_tree(ip, c, a, b):
    sa, sb = tree_shape(ip, a), tree_shape(ip, b)
    if len(sa) != len(sb):
        raise Unsupported("ragged array")
    if not sa:
        return ip.mk_ite(c, a, b)
    shp = tuple(x if x is y else tm.ite(c, x, y) for x, y in zip(sa, sb))
    return build_tree(ip, shp, lambda i: ip.mk_ite(c, tree_at(ip, a, i), tree_at(ip, b, i)))


def pieces_tree(ip, pieces):
    pieces = tuple(pieces)
    if all(p[0] == "i" for p in pieces):
        ch = tuple(val_tree(ip, p[1]) for p in pieces)
        shs = {tree_shape(ip, x) for x in ch}
        if len(shs) > 1:
            ip.raise_("ValueError", "setting an array element with a sequence")
        return ("const", ch)
    if len(pieces) == 1 and pieces[0][0] == "g" and len(pieces[0][3]) == 1 and pieces[0][3][0][0] == "i":
        _, b, n, sub = pieces[0]
        return ("sym", n, b, val_tree(ip, sub[0][1]))
    n = ip.plen(pieces)
    if n.op == "c" and n.a[0] <= LIMIT:
        return ("const", tuple(val_tree(ip, ip.at(pieces, tm.const(k))) for k in range(int(n.a[0]))))
    b = tm.fresh("a", True, ZERO, tm.sub(n, ONE))
    ip.stamps[b] = Ref._n
    return ("sym", n, b, val_tree(ip, ip.at(pieces, b)))


def as_arr(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, Ref) and isinstance(ip.get(v), Arr):
        return v
    t = val_tree(ip, v)
    if is_tree(t):
        return ip.new(Arr(t))
    return t


def dtype_kind(d):
    if d is None:
        return "float"
    if isinstance(d, str):
        d = d.split(".")[-1]
        return "int" if d.startswith(("int", "uint", "i")) else "bool" if d.startswith("bool") else \
            "float32" if d in ("float32", "float16", "f4", "half", "single") else "object" if d in ("O", "object") else "float"
    if isinstance(d, ClassV):
        return d.name
    if isinstance(d, ExtV):
        return dtype_kind(d.name.split(".")[-1])
    return "float"


def convert(ip, ref, dt):
    if dt is None:
        return ref
    k = dtype_kind(dt)
    if k in ("float", "object"):
        return ref
    if k == "int":
        return map_arr(ip, ref, lambda x: x if isinstance(x, T) and x.isint else tm.fun("trunc", x))
    if k == "bool":
        return map_arr(ip, ref, lambda x: ip.truth(x))
    raise Unsupported(f"dtype {k}")


def np_array(ip, a, k):
    v = ip.vsimp(a[0])
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    if isinstance(v, Ref) and isinstance(ip.get(v), Arr):
        if k.get("copy") is FALSE:
            return v
        return convert(ip, copy_arr(ip, v), dt)
    t = val_tree(ip, v)
    if not is_tree(t):
        return t
    r = ip.new(Arr(t))
    nd = k.get("ndmin")
    if nd is not None and len(tree_shape(ip, t)) < int(nd.a[0]):
        r = reshape(ip, r, [ONE] * (int(nd.a[0]) - len(tree_shape(ip, t))) + list(tree_shape(ip, t)))
    return convert(ip, r, dt)


def np_asarray(ip, a, k):
    v = ip.vsimp(a[0])
    if isinstance(v, Ref) and isinstance(ip.get(v), Arr) and k.get("dtype", a[1] if len(a) > 1 else None) is None:
        return v
    if isinstance(v, Ref) and isinstance(ip.get(v), Arr) and dtype_kind(k.get("dtype", a[1] if len(a) > 1 else None)) == "float":
        return v
    return np_array(ip, a, k)


def np_fromiter(ip, a, k):
    if "dtype" not in k and len(a) < 2:
        ip.raise_("TypeError", "fromiter needs a dtype")
    pieces = tuple(ip.iter(a[0]))
    cnt = k.get("count", a[2] if len(a) > 2 else None)
    if cnt is not None and ip.simp(tm.eq(cnt, tm.const(-1))) is not tm.TRUE:
        ip.check(tm.eq(cnt, ip.plen(pieces)), "ValueError")
    return np_array(ip, [ip.new(Lst(pieces))], {"dtype": k.get("dtype", a[1] if len(a) > 1 else None)})


def shape_arg(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, T):
        return [v]
    return [x for x in ip.items(v)]


def np_full(value):
    def f(ip, a, k):
        shp = shape_arg(ip, k["shape"] if "shape" in k else a[0])
        v = value
        if value is None:
            v = k["fill_value"] if "fill_value" in k else a[1]
        dt = k.get("dtype", None)
        if dtype_kind(dt) == "int" and not ip.frames:
            pass
        return build(ip, tuple(shp), lambda i: v)
    return f


def np_full_like(value):
    def f(ip, a, k):
        v = value
        if value is None:
            v = k["fill_value"] if "fill_value" in k else a[1]
        x = as_arr(ip, a[0])
        if not isinstance(x, Ref):
            return v
        return build(ip, shape(ip, x), lambda i: v)
    return f


def np_empty(ip, a, k):
    shp = shape_arg(ip, k["shape"] if "shape" in k else a[0])
    u = tm.fresh_name("uninit")
    return build(ip, tuple(shp), lambda i: tm.app(u, tuple(i)))


def np_arange(ip, a, k):
    a = [x for x in a]
    if len(a) == 1:
        st, en, sp = ZERO, a[0], ONE
    else:
        st, en, sp = a[0], a[1], a[2] if len(a) > 2 else ONE
    if st.isint and en.isint and sp.isint:
        n = ct.range_len(ip, RangeV(st, en, sp))
    else:
        n = tm.minmax("max", [ZERO, tm.fun("ceil", tm.div(tm.sub(en, st), sp))])
    return build(ip, (n,), lambda i: tm.add(st, tm.mul(i[0], sp)))


def np_linspace(ip, a, k):
    st, en = a[0], a[1]
    n = k.get("num", a[2] if len(a) > 2 else tm.const(50))
    ep = k.get("endpoint", TRUE)
    d = tm.sub(n, ONE) if ep is TRUE else n
    n1 = ip.simp(tm.eq(n, ONE))
    f = lambda i: ip.binop("add", st, ip.binop("mul", i[0], ip.binop("truediv", ip.binop("sub", en, st), d)))
    if n1 is TRUE:
        return build(ip, (n,), lambda i: st)
    return build(ip, (n,), f)


def np_eye(ip, a, k):
    n = a[0]
    m = a[1] if len(a) > 1 else n
    return build(ip, (n, m), lambda i: tm.b2i(tm.eq(i[0], i[1])))


# ------------------------------------------------------------------ elementwise

def bshape(ip, sa, sb):
    out = []
    la, lb = len(sa), len(sb)
    n = max(la, lb)
    for j in range(n):
        x = sa[la - n + j] if la - n + j >= 0 else None
        y = sb[lb - n + j] if lb - n + j >= 0 else None
        if x is None or y is None:
            out.append(y if x is None else x)
        elif x is y:
            out.append(x)
        elif x is ONE:
            out.append(y)
        elif y is ONE:
            out.append(x)
        else:
            ip.check(tm.eq(x, y), "ValueError", "operands could not be broadcast together")
            out.append(x if x.op == "c" else y)
    return tuple(out)


def bindex(shp, idx):
    k = len(idx) - len(shp)
    return tuple(ZERO if s is ONE else i for s, i in zip(shp, idx[k:]))


def elementwise(ip, f, *vs):
    xs = []
    for v in vs:
        xs.append(as_arr(ip, v))
    shs = [shape(ip, x) if isinstance(x, Ref) and isinstance(ip.get(x), Arr) else () for x in xs]
    shp = ()
    for s in shs:
        shp = bshape(ip, shp, s)

    def el(i):
        return f(*[elem(ip, x, bindex(s, i)) if s else x for x, s in zip(xs, shs)])
    if not shp:
        return el(())
    return build(ip, shp, el)


def map_arr(ip, v, f):
    return build(ip, shape(ip, v), lambda i: f(elem(ip, v, i)))


def scalar(ip, v):
    s = shape(ip, v)
    if all(x is ONE for x in s):
        return elem(ip, v, tuple(ZERO for _ in s))
    return None


OPS = {"add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"}


def convertible(ip, v, c):
    return isinstance(v, T) or isinstance(v, tuple) or isinstance(c, (Arr, Lst)) or isinstance(v, RangeV)


def binop(ip, op, a, ca, b, cb):
    if isinstance(a, IteV) or isinstance(b, IteV):
        return NOTIMPL
    if not convertible(ip, a, ca) or not convertible(ip, b, cb):
        if op == "eq":
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                x = a if isinstance(ca, Arr) else b
                return build(ip, shape(ip, x), lambda i: FALSE)
        if isinstance(ca, Comp) or isinstance(cb, Comp):
            raise Unsupported("array combined with a model component")
        return NOTIMPL
    if op == "matmul":
        return matmul(ip, a, b)
    if op == "eq":
        return elementwise(ip, lambda x, y: ip.eq_op(x, y), a, b)
    if op in ("lt", "le", "gt", "ge"):
        return elementwise(ip, lambda x, y: ip.order(op, x, y), a, b)
    if op == "truediv":
        return elementwise(ip, lambda x, y: np_div(ip, x, y), a, b)
    if op in OPS:
        return elementwise(ip, lambda x, y: ip.binop(op, x, y), a, b)
    return NOTIMPL


def np_div(ip, x, y):
    if isinstance(y, T) and y is ZERO:
        raise Unsupported("array division by zero")
    return ip.binop("truediv", x, y)


def assign_all(ip, ref, r):
    c = ip.get(ref)
    shp = shape(ip, ref)
    if not (isinstance(c.tree, tuple) and c.tree and c.tree[0] == "view"):
        if isinstance(r, Ref):
            rs = shape(ip, r)
            if rs == shp:
                src = ip.get(r)
                if not (isinstance(src.tree, tuple) and src.tree[0] == "view"):
                    ip.note_log(ref)
                    ip.put(ref, Arr(src.tree, src.log))
                    return
    setitem(ip, ref, c, ELLIPSIS, r)


def inplace(ip, op, a, c, b):
    r = ip.binop(op, a, b)
    if not (isinstance(r, Ref) and isinstance(ip.get(r), Arr)):
        return r
    if len(shape(ip, r)) != len(shape(ip, a)):
        ip.raise_("ValueError", "non-broadcastable output operand")
    assign_all(ip, a, r)
    return a


# ------------------------------------------------------------------ iteration, indexing

def iterate(ip, v, c):
    shp = shape(ip, v)
    if not shp:
        ip.raise_("TypeError", "iteration over a 0-d array")
    n = shp[0]
    if n.op == "c" and n.a[0] <= LIMIT:
        return tuple(("i", first_axis(ip, v, tm.const(k), shp)) for k in range(int(n.a[0])))
    b = tm.fresh("a", True, ZERO, tm.sub(n, ONE))
    ip.stamps[b] = Ref._n
    return (("g", b, n, (("i", first_axis(ip, v, b, shp)),)),)


def first_axis(ip, v, k, shp):
    if len(shp) == 1:
        return elem(ip, v, (k,))
    pat = [("fix", k)] + [("ax", j, ZERO, ONE) for j in range(len(shp) - 1)]
    return view(ip, v, pat, shp[1:])


def length(ip, v, c):
    shp = shape(ip, v)
    if not shp:
        ip.raise_("TypeError", "len() of unsized object")
    return shp[0]


def resolve_key(ip, k, shp):
    """one entry per dimension: ('fix', i) | ('ax', lo, step, n) | ('idx', ref) | ('new',)"""
    ks = list(k) if isinstance(k, tuple) else [k]
    nreal = sum(1 for x in ks if x is not None and x is not ELLIPSIS)
    out = []
    d = 0
    if not any(x is ELLIPSIS for x in ks):
        ks = ks + [ELLIPSIS]
    seen = False
    for x in ks:
        x = ip.vsimp(x)
        if x is ELLIPSIS:
            if seen:
                continue
            seen = True
            for _ in range(len(shp) - nreal):
                out.append(("ax", ZERO, ONE, shp[d]))
                d += 1
            continue
        if x is None:
            out.append(("new",))
            continue
        if d >= len(shp):
            ip.raise_("IndexError", "too many indices for array")
        n = shp[d]
        if isinstance(x, SliceV):
            lo, hi, st = ct.slice_bounds(ip, x, n)
            st = int(st)
            if st < 0:
                # slice_bounds gives the covered interval for positive steps; only the full reversal is modelled
                if x.lo is None and x.hi is None:
                    if st != -1:
                        raise Unsupported("strided reversal")
                    out.append(("ax", tm.sub(n, ONE), tm.NEG1, n))
                else:
                    raise Unsupported("negative stride")
            else:
                ln = tm.sub(hi, lo)
                if st != 1:
                    ln = tm.floordiv(tm.add(ln, tm.const(st - 1)), tm.const(st))
                pn = ln if tm.nonneg(ln) else tm.minmax("max", [ZERO, ln])
                out.append(("ax", lo, tm.const(st), pn))
            d += 1
        elif isinstance(x, T):
            from . import builtin_models as bm
            if x.isbool:
                raise Unsupported("boolean index")
            out.append(("fix", bm.norm_index(ip, x, n)))
            d += 1
        elif isinstance(x, (Ref, RangeV)) or isinstance(x, tuple):
            r = as_arr(ip, x)
            if not isinstance(r, Ref) or not isinstance(ip.get(r), Arr):
                ip.raise_("IndexError", "only integers, slices and arrays are valid indices")
            out.append(("idx", r, d))
            d += 1
        else:
            ip.raise_("IndexError", "only integers, slices and arrays are valid indices")
    return out


def is_mask(ip, r):
    s = shape(ip, r)
    v = elem(ip, r, tuple(tm.ZERO if x.op == "c" else tm.fresh("q", True, ZERO, tm.sub(x, ONE)) for x in s)) \
        if not any(x is ZERO for x in s) else None
    return isinstance(v, T) and v.isbool


def getitem(ip, o, c, k):
    shp = shape(ip, o)
    ks = resolve_key(ip, k, shp)
    fancy = [x for x in ks if x[0] == "idx"]
    if not fancy:
        pat, out = [], []
        ax = 0
        if any(x[0] == "new" for x in ks):
            return with_newaxis(ip, o, ks)
        for x in ks:
            if x[0] == "fix":
                pat.append(x)
            else:
                pat.append(("ax", ax, x[1], x[2]))
                out.append(x[3])
                ax += 1
        if not out:
            return elem(ip, o, tuple(x[1] for x in pat))
        return view(ip, o, pat, out)
    return gather(ip, o, ks, fancy)


def with_newaxis(ip, o, ks):
    out = []
    spec = []
    ax = 0
    for x in ks:
        if x[0] == "new":
            out.append(ONE)
            ax += 1
        elif x[0] == "fix":
            spec.append(("fix", x[1]))
        else:
            spec.append(("ax", ax, x[1], x[2]))
            out.append(x[3])
            ax += 1
    return build(ip, tuple(out), lambda i: elem(ip, o, base_index(spec, i)))


def gather(ip, o, ks, fancy):
    from . import builtin_models as bm
    shp = shape(ip, o)
    for x in fancy:
        if is_mask(ip, x[1]):
            if len(ks) == 1 and len(shape(ip, x[1])) == 1:
                m = x[1]
                items = iterate(ip, o, None)
                mk = iterate(ip, m, None)
                z = ct.zip_pieces(ip, [items, mk])

                def sel(ps):
                    out = []
                    for p in ps:
                        if p[0] == "i":
                            out.append(("c", p[1][1], (("i", p[1][0]),), ()))
                        elif p[0] == "g":
                            out.append(("g", p[1], p[2], sel(p[3])))
                        else:
                            raise Unsupported("mask")
                    return tuple(out)
                ps = sel(z)
                cc = ip.concrete(ps)
                if cc is not None:
                    return ip.new(Arr(pieces_tree(ip, [("i", v) for v in cc])))
                raise Unsupported("boolean mask of unknown pattern")
            raise Unsupported("boolean mask")
    ish = ()
    for x in fancy:
        ish = bshape(ip, ish, shape(ip, x[1]))
    first = next(j for j, x in enumerate(ks) if x[0] in ("idx",))
    out = []
    spec = []
    placed = False
    contiguous = True
    pos = [j for j, x in enumerate(ks) if x[0] in ("idx", "fix")]
    if pos != list(range(pos[0], pos[-1] + 1)):
        contiguous = False
        out.extend(ish)
        placed = True
        ipos = 0
    for j, x in enumerate(ks):
        if x[0] == "idx" or (x[0] == "fix" and fancy):
            if not placed and contiguous:
                ipos = len(out)
                out.extend(ish)
                placed = True
            spec.append(x)
        elif x[0] == "new":
            raise Unsupported("newaxis with fancy index")
        else:
            spec.append(("ax", len(out), x[1], x[2]))
            out.append(x[3])
    m = len(ish)

    def idx_of(i):
        res = []
        for d, x in enumerate(spec):
            if x[0] == "idx":
                v = elem(ip, x[1], bindex(shape(ip, x[1]), i[ipos:ipos + m]))
                res.append(bm.norm_index(ip, v, shp[d]))
            elif x[0] == "fix":
                res.append(x[1])
            else:
                res.append(tm.add(x[2], tm.mul(x[3], i[x[1]])))
        return tuple(res)
    return build(ip, tuple(out), lambda i: elem(ip, o, idx_of(i)))


def setitem(ip, o, c, k, v):
    from . import builtin_models as bm
    shp = shape(ip, o)
    if isinstance(ip.vsimp(k), Ref) and isinstance(ip.get(ip.vsimp(k)), Arr) and is_mask(ip, ip.vsimp(k)):
        mask = ip.vsimp(k)
        vv = ip.vsimp(v)
        if not isinstance(vv, T):
            raise Unsupported("masked assignment of an array")

        def go(d, idx):
            if d == len(shp):
                return (("c", elem(ip, mask, idx[:len(shape(ip, mask))]), (("put", idx, vv),), ()),)
            if shp[d].op == "c":
                out = ()
                for q in range(int(shp[d].a[0])):
                    out += go(d + 1, idx + (tm.const(q),))
                return out
            b = tm.fresh("a", True, ZERO, tm.sub(shp[d], ONE))
            ip.stamps[b] = Ref._n
            return (("g", b, shp[d], go(d + 1, idx + (b,))),)
        write(ip, o, go(0, ()))
        return
    ks = resolve_key(ip, k, shp)
    out = []
    spec = []
    fancy = [x for x in ks if x[0] == "idx"]
    ish = ()
    for x in fancy:
        ish = bshape(ip, ish, shape(ip, x[1]))
    ipos = None
    for x in ks:
        if x[0] == "new":
            raise Unsupported("newaxis assignment")
        if x[0] == "ax":
            spec.append(("ax", len(out), x[1], x[2]))
            out.append(x[3])
        elif x[0] == "idx":
            if ipos is None:
                ipos = len(out)
                out.extend(ish)
            spec.append(x)
        else:
            spec.append(x)
    m = len(ish)

    def idx_of(i):
        res = []
        for d, x in enumerate(spec):
            if x[0] == "idx":
                w = elem(ip, x[1], bindex(shape(ip, x[1]), i[ipos:ipos + m]))
                res.append(bm.norm_index(ip, w, shp[d]))
            elif x[0] == "fix":
                res.append(x[1])
            else:
                res.append(tm.add(x[2], tm.mul(x[3], i[x[1]])))
        return tuple(res)
    v = ip.vsimp(v)
    if not out:
        v = as_arr(ip, v)
        if isinstance(v, Ref) and isinstance(ip.get(v), Arr):
            s = scalar(ip, v)
            if s is None:
                ip.raise_("ValueError", "setting an array element with a sequence")
            v = s
        write(ip, o, (("put", idx_of(()), v),))
        return
    src = as_arr(ip, v)
    ss = shape(ip, src) if isinstance(src, Ref) and isinstance(ip.get(src), Arr) else ()
    if len(ss) > len(out):
        if all(x is ONE for x in ss[:len(ss) - len(out)]):
            src = reshape(ip, src, ss[len(ss) - len(out):])
            ss = shape(ip, src)
        else:
            ip.raise_("ValueError", "could not broadcast input array")
    for x, y in zip(reversed(ss), reversed(out)):
        if x is not y and x is not ONE:
            ip.check(tm.eq(x, y), "ValueError", "could not broadcast input array")

    def ents(d, idx):
        if d == len(out):
            val = elem(ip, src, bindex(ss, idx)) if ss else src
            return (("put", idx_of(idx), val),)
        if out[d].op == "c" and out[d].a[0] <= LIMIT:
            r = ()
            for q in range(int(out[d].a[0])):
                r += ents(d + 1, idx + (tm.const(q),))
            return r
        b = tm.fresh("a", True, ZERO, tm.sub(out[d], ONE))
        ip.stamps[b] = Ref._n
        return (("g", b, out[d], ents(d + 1, idx + (b,))),)
    write(ip, o, ents(0, ()))


# ------------------------------------------------------------------ reshaping

def reshape(ip, v, shp):
    old = shape(ip, v)
    shp = list(shp)
    total = ONE
    for s in old:
        total = tm.mul(total, s)
    if any(s is tm.NEG1 for s in shp):
        rest = ONE
        for s in shp:
            if s is not tm.NEG1:
                rest = tm.mul(rest, s)
        q = tm.floordiv(total, rest) if rest is not ONE else total
        shp = [q if s is tm.NEG1 else s for s in shp]
    t2 = ONE
    for s in shp:
        t2 = tm.mul(t2, s)
    ip.check(tm.eq(total, t2), "ValueError", "cannot reshape array")
    strides = []
    acc = ONE
    for s in reversed(old):
        strides.insert(0, acc)
        acc = tm.mul(acc, s)

    def f(i):
        flat = ZERO
        for s, j in zip(shp, i):
            flat = tm.add(tm.mul(flat, s), j)
        idx = []
        for d, (s, st) in enumerate(zip(old, strides)):
            if d == 0:
                idx.append(tm.floordiv(flat, st) if st is not ONE else flat)
            else:
                q = tm.floordiv(flat, st) if st is not ONE else flat
                idx.append(tm.mod(q, s))
        return elem(ip, v, tuple(idx))
    return build(ip, tuple(shp), f)


def transpose(ip, v, axes=None):
    shp = shape(ip, v)
    n = len(shp)
    axes = list(axes) if axes is not None else list(reversed(range(n)))
    pat = [None] * n
    for j, a in enumerate(axes):
        pat[a] = ("ax", j, ZERO, ONE)
    return view(ip, v, pat, [shp[a] for a in axes])


def flat_pieces(ip, v):
    """all elements in row-major order"""
    def go(shp, idx):
        if not shp:
            return (("i", elem(ip, v, idx)),)
        n = shp[0]
        if n.op == "c" and n.a[0] <= LIMIT:
            out = ()
            for q in range(int(n.a[0])):
                out += go(shp[1:], idx + (tm.const(q),))
            return out
        b = tm.fresh("a", True, ZERO, tm.sub(n, ONE))
        ip.stamps[b] = Ref._n
        return (("g", b, n, go(shp[1:], idx + (b,))),)
    return go(shape(ip, v), ())


def tolist(ip, v, idx=None, shp=None):
    shp = shape(ip, v) if shp is None else shp
    idx = idx or ()
    if not shp:
        return elem(ip, v, idx)
    n = shp[0]
    if n.op == "c" and n.a[0] <= LIMIT:
        return ip.new(Lst([("i", tolist(ip, v, idx + (tm.const(q),), shp[1:])) for q in range(int(n.a[0]))]))
    b = tm.fresh("a", True, ZERO, tm.sub(n, ONE))
    ip.stamps[b] = Ref._n
    return ip.new(Lst((("g", b, n, (("i", tolist(ip, v, idx + (b,), shp[1:])),)),)))


# ------------------------------------------------------------------ reductions

def axis_of(a, k, pos=1):
    ax = k.get("axis", a[pos] if len(a) > pos else None)
    if ax is None:
        return None
    return int(ax.a[0])


def reduce_axis(ip, v, ax, f):
    """f(pieces) reduces a line"""
    shp = shape(ip, v)
    if ax < 0:
        ax += len(shp)
    rest = shp[:ax] + shp[ax + 1:]

    def el(i):
        n = shp[ax]
        at = lambda q: elem(ip, v, i[:ax] + (q,) + i[ax:])
        if n.op == "c" and n.a[0] <= LIMIT:
            ps = tuple(("i", at(tm.const(q))) for q in range(int(n.a[0])))
        else:
            b = tm.fresh("a", True, ZERO, tm.sub(n, ONE))
            ip.stamps[b] = Ref._n
            ps = (("g", b, n, (("i", at(b)),)),)
        return f(ps)
    return build(ip, rest, el)


def reduction(f):
    def g(ip, a, k):
        v = as_arr(ip, a[0])
        if not (isinstance(v, Ref) and isinstance(ip.get(v), Arr)):
            return f(ip, (("i", v),))
        ax = axis_of(a, k)
        if ax is None:
            return f(ip, flat_pieces(ip, v))
        return reduce_axis(ip, v, ax, lambda ps: f(ip, ps))
    return g


def red_ext(kind):
    def f(ip, ps):
        n = ip.plen(ps)
        ip.check(tm.pos(n), "ValueError", "zero-size array to reduction operation")
        r = ct.fold_ext(ip, ps, kind)
        if r is None:
            ip.raise_("ValueError", "zero-size array to reduction operation")
        return r
    return f


def red_sum(ip, ps):
    return ct.fold_sum(ip, ps, ZERO)


def red_prod(ip, ps):
    return ct.fold_prod(ip, ps, ONE)


def red_mean(ip, ps):
    return ip.binop("truediv", ct.fold_sum(ip, ps, ZERO), ip.plen(ps))


def red_any(ip, ps):
    return ip.simp(ct.fold_any(ip, ps, ip.truth))


def red_all(ip, ps):
    return tm.bnot(ip.simp(ct.fold_any(ip, ps, lambda x: tm.bnot(ip.truth(x)))))


def red_arg(kind):
    def f(ip, ps):
        xs = ip.concrete(ps)
        if xs is None:
            raise Unsupported("arg" + kind)
        best, at = xs[0], ZERO
        for j, x in enumerate(xs[1:], 1):
            c = tm.lt(best, x) if kind == "max" else tm.lt(x, best)
            best, at = tm.ite(c, x, best), tm.ite(c, tm.const(j), at)
        return at
    return f


def red_ptp(ip, ps):
    return tm.sub(ct.fold_ext(ip, ps, "max"), ct.fold_ext(ip, ps, "min"))


RED = {"sum": red_sum, "prod": red_prod, "mean": red_mean, "average": red_mean, "any": red_any, "all": red_all,
       "max": red_ext("max"), "min": red_ext("min"), "amax": red_ext("max"), "amin": red_ext("min"),
       "argmax": red_arg("max"), "argmin": red_arg("min"), "ptp": red_ptp, "nanmax": red_ext("max"), "nanmin": red_ext("min"),
       "nansum": red_sum}


def summed(ip, n, f):
    """sum over 0 <= q < n"""
    if n.op == "c" and n.a[0] <= LIMIT:
        r = None
        for q in range(int(n.a[0])):
            x = f(tm.const(q))
            r = x if r is None else ip.binop("add", r, x)
        return ZERO if r is None else r
    b = tm.fresh("a", True, ZERO, tm.sub(n, ONE))
    ip.stamps[b] = Ref._n
    return tm.summ(b, n, f(b))


def matmul(ip, a, b):
    a, b = as_arr(ip, a), as_arr(ip, b)
    if not isinstance(a, Ref) or not isinstance(b, Ref):
        ip.raise_("ValueError", "matmul: Input operand does not have enough dimensions")
    sa, sb = shape(ip, a), shape(ip, b)
    n = sa[-1]
    m = sb[-2] if len(sb) > 1 else sb[0]
    if n is not m:
        ip.check(tm.eq(n, m), "ValueError", "matmul: dimension mismatch")
    ra = sa[:-1]
    rb = sb[:-2] + sb[-1:] if len(sb) > 1 else ()
    if len(sa) > 2 or len(sb) > 2:
        raise Unsupported("batched matmul")

    def el(i):
        x, y = i[:len(ra)], i[len(ra):]
        return summed(ip, n, lambda q: ip.binop("mul", elem(ip, a, x + (q,)), elem(ip, b, (q,) + y)))
    return build(ip, ra + rb, el)


def np_dot(ip, a, k):
    x, y = as_arr(ip, a[0]), as_arr(ip, a[1])
    if not isinstance(x, Ref) or not isinstance(y, Ref):
        return ip.binop("mul", x, y)
    return matmul(ip, x, y)


def np_inner(ip, a, k):
    x, y = as_arr(ip, a[0]), as_arr(ip, a[1])
    if not isinstance(x, Ref) or not isinstance(y, Ref):
        return ip.binop("mul", x, y)
    if len(shape(ip, y)) == 2:
        y = transpose(ip, y)
    return matmul(ip, x, y)


def np_outer(ip, a, k):
    x, y = as_arr(ip, a[0]), as_arr(ip, a[1])
    return build(ip, (shape(ip, x)[0], shape(ip, y)[0]), lambda i: ip.binop("mul", elem(ip, x, i[:1]), elem(ip, y, i[1:])))


def np_cross(ip, a, k):
    x, y = as_arr(ip, a[0]), as_arr(ip, a[1])
    e = lambda v, j: elem(ip, v, (tm.const(j),))
    m = lambda p, q: ip.binop("mul", p, q)
    s = lambda p, q: ip.binop("sub", p, q)
    if shape(ip, x)[0] is tm.TWO:
        return s(m(e(x, 0), e(y, 1)), m(e(x, 1), e(y, 0)))
    return ip.new(Arr(("const", tuple(s(m(e(x, (j + 1) % 3), e(y, (j + 2) % 3)), m(e(x, (j + 2) % 3), e(y, (j + 1) % 3))) for j in range(3)))))


def norm2(ip, ps):
    return tm.sqrt(ct.fold_sum(ip, ct.map_values(ip, ps, lambda x: ip.binop("mul", x, x)), ZERO))


def la_norm(ip, a, k):
    v = as_arr(ip, a[0])
    if len(a) > 1 and a[1] is not None or k.get("ord") is not None:
        raise Unsupported("matrix norm order")
    ax = k.get("axis")
    if ax is not None:
        return reduce_axis(ip, v, int(ax.a[0]), lambda ps: norm2(ip, ps))
    return norm2(ip, flat_pieces(ip, v))


def det_(ip, rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    r = ZERO
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in rows[1:]]
        t = ip.binop("mul", rows[0][j], det_(ip, minor))
        r = ip.binop("add" if j % 2 == 0 else "sub", r, t)
    return r


def rows_of(ip, v):
    shp = shape(ip, v)
    if len(shp) != 2 or any(s.op != "c" for s in shp):
        raise Unsupported("matrix of unknown size")
    return [[elem(ip, v, (tm.const(i), tm.const(j))) for j in range(int(shp[1].a[0]))] for i in range(int(shp[0].a[0]))]


def la_det(ip, a, k):
    return det_(ip, rows_of(ip, as_arr(ip, a[0])))


def la_inv(ip, a, k):
    r = rows_of(ip, as_arr(ip, a[0]))
    n = len(r)
    d = det_(ip, r)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            minor = [[r[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
            cf = det_(ip, minor) if minor else ONE
            row.append(ip.binop("truediv", cf if (i + j) % 2 == 0 else ip.unary("neg", cf), d))
        out.append(("const", tuple(row)))
    return ip.new(Arr(("const", tuple(out))))


def la_solve(ip, a, k):
    return matmul(ip, la_inv(ip, [a[0]], {}), a[1])


def np_concatenate(ip, a, k, axis=None):
    xs = [as_arr(ip, x) for x in ip.items(a[0])]
    ax = axis if axis is not None else int(k["axis"].a[0]) if "axis" in k else int(a[1].a[0]) if len(a) > 1 else 0
    sh = [shape(ip, x) for x in xs]
    nd = len(sh[0])
    if ax < 0:
        ax += nd
    total = ZERO
    offs = []
    for s in sh:
        offs.append(total)
        total = tm.add(total, s[ax])
    out = sh[0][:ax] + (total,) + sh[0][ax + 1:]

    def el(i):
        q = i[ax]
        v = None
        for x, o, s in reversed(list(zip(xs, offs, sh))):
            inside = ip.simp(tm.lt(q, tm.add(o, s[ax])))
            if v is not None and inside is FALSE:
                continue
            w = elem(ip, x, i[:ax] + (tm.sub(q, o),) + i[ax + 1:])
            v = w if v is None else ip.mk_ite(inside, w, v)
        return v
    return build(ip, out, el)


def np_stack(ip, a, k):
    xs = [as_arr(ip, x) for x in ip.items(a[0])]
    ax = int(k["axis"].a[0]) if "axis" in k else int(a[1].a[0]) if len(a) > 1 else 0
    sh = shape(ip, xs[0]) if isinstance(xs[0], Ref) else ()
    if ax < 0:
        ax += len(sh) + 1
    for x in xs[1:]:
        for p, q in zip(sh, shape(ip, x) if isinstance(x, Ref) else ()):
            if p is not q:
                ip.check(tm.eq(p, q), "ValueError", "all input arrays must have the same shape")
    out = sh[:ax] + (tm.const(len(xs)),) + sh[ax:]
    return build(ip, out, lambda i: elem(ip, xs[int(i[ax].a[0])], i[:ax] + i[ax + 1:]) if isinstance(xs[0], Ref) else xs[int(i[0].a[0])])


def np_column_stack(ip, a, k):
    xs = [as_arr(ip, x) for x in ip.items(a[0])]
    xs = [reshape(ip, x, [tm.NEG1, ONE]) if len(shape(ip, x)) == 1 else x for x in xs]
    return np_concatenate(ip, [xs and tuple(xs)], {}, 1)


def np_vstack(ip, a, k):
    xs = [as_arr(ip, x) for x in ip.items(a[0])]
    xs = [reshape(ip, x, [ONE, tm.NEG1]) if len(shape(ip, x)) == 1 else x for x in xs]
    return np_concatenate(ip, [tuple(xs)], {}, 0)


def np_hstack(ip, a, k):
    xs = [as_arr(ip, x) for x in ip.items(a[0])]
    return np_concatenate(ip, [tuple(xs)], {}, 0 if len(shape(ip, xs[0])) == 1 else 1)


def np_where(ip, a, k):
    if len(a) == 1:
        raise Unsupported("np.where with one argument")
    return elementwise(ip, lambda c, x, y: ip.mk_ite(ip.truth(c), x, y), *a)


def close(ip, x, y, a, k):
    rt = k.get("rtol", tm.const(Fraction(1, 10**5)))
    at = k.get("atol", tm.const(Fraction(1, 10**8)))
    return tm.le(tm.absv(tm.sub(x, y)), tm.add(at, tm.mul(rt, tm.absv(y))))


def np_isclose(ip, a, k):
    return elementwise(ip, lambda x, y: close(ip, x, y, a, k), a[0], a[1])


def np_allclose(ip, a, k):
    r = np_isclose(ip, a[:2], k)
    return red_all(ip, flat_pieces(ip, r)) if isinstance(r, Ref) else r


def np_array_equal(ip, a, k):
    x, y = as_arr(ip, a[0]), as_arr(ip, a[1])
    sx = shape(ip, x) if isinstance(x, Ref) else ()
    sy = shape(ip, y) if isinstance(y, Ref) else ()
    if len(sx) != len(sy):
        return FALSE
    c = TRUE
    for p, q in zip(sx, sy):
        c = tm.band(c, tm.eq(p, q))
    c = ip.simp(c)
    if c is FALSE:
        return FALSE
    r = ip.cond(c, lambda: red_all(ip, flat_pieces(ip, elementwise(ip, ip.eq, x, y))), lambda: FALSE)
    return r


def np_cumsum(ip, a, k):
    xs = ip.items(as_arr(ip, a[0]))
    out, acc = [], ZERO
    for x in xs:
        acc = ip.binop("add", acc, x)
        out.append(acc)
    return ip.new(Arr(("const", tuple(out))))


def np_diff(ip, a, k):
    v = as_arr(ip, a[0])
    shp = shape(ip, v)
    return build(ip, (tm.sub(shp[0], ONE),) + shp[1:], lambda i: ip.binop("sub", elem(ip, v, (tm.add(i[0], ONE),) + i[1:]), elem(ip, v, i)))


def np_clip(ip, a, k):
    lo = k.get("a_min", k.get("min", a[1] if len(a) > 1 else None))
    hi = k.get("a_max", k.get("max", a[2] if len(a) > 2 else None))

    def f(x):
        if lo is not None:
            x = tm.minmax("max", [x, lo])
        if hi is not None:
            x = tm.minmax("min", [x, hi])
        return x
    return elementwise(ip, f, a[0])


def np_einsum(ip, a, k):
    spec = a[0]
    if not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum")
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    xs = [as_arr(ip, x) for x in a[1:]]
    dims = {}
    for s, x in zip(ins, xs):
        for ch, n in zip(s, shape(ip, x)):
            if ch in dims and dims[ch] is not n:
                ip.check(tm.eq(dims[ch], n), "ValueError", "einsum dimension mismatch")
            dims.setdefault(ch, n)
    if "->" not in spec:
        every = "".join(ins)
        out = "".join(sorted(c for c in set(every) if every.count(c) == 1))
    rest = [c for c in dims if c not in out]

    def el(i):
        env = dict(zip(out, i))

        def go(j, env):
            if j == len(rest):
                r = None
                for s, x in zip(ins, xs):
                    v = elem(ip, x, tuple(env[c] for c in s))
                    r = v if r is None else ip.binop("mul", r, v)
                return r
            return summed(ip, dims[rest[j]], lambda q: go(j + 1, {**env, rest[j]: q}))
        return go(0, env)
    return build(ip, tuple(dims[c] for c in out), el)


def leggauss(ip, a, k):
    n = ip.vsimp(a[0] if a else k["deg"])
    if not isinstance(n, T) or not n.isint:
        ip.raise_("TypeError", "deg must be an integer")
    ip.check(tm.pos(n), "ValueError", "deg must be a positive integer")
    return (build(ip, (n,), lambda i: tm.app("gp", (n, i[0]))), build(ip, (n,), lambda i: tm.app("gw", (n, i[0]))))


# ------------------------------------------------------------------ attributes

def getattr_(ip, ref, c, name):
    shp = shape(ip, ref)
    if name == "shape":
        return tuple(shp)
    if name == "ndim":
        return tm.const(len(shp))
    if name == "size":
        n = ONE
        for s in shp:
            n = tm.mul(n, s)
        return n
    if name == "T":
        return transpose(ip, ref)
    if name == "dtype":
        return ExtV("numpy.float64")
    if name == "real":
        return ref
    if name == "flat":
        return ip.new(Itr(flat_pieces(ip, ref)))
    if name == "tolist":
        return fn(name, lambda ip, a, k: tolist(ip, ref))
    if name in ("copy", "__copy__"):
        return fn(name, lambda ip, a, k: copy_arr(ip, ref))
    if name == "flatten":
        return fn(name, lambda ip, a, k: reshape(ip, ref, [tm.NEG1]))
    if name == "ravel":
        return fn(name, lambda ip, a, k: reshape(ip, ref, [tm.NEG1]))
    if name == "reshape":
        return fn(name, lambda ip, a, k: reshape(ip, ref, shape_arg(ip, a[0]) if len(a) == 1 else a))
    if name == "transpose":
        return fn(name, lambda ip, a, k: transpose(ip, ref, [int(x.a[0]) for x in (ip.items(a[0]) if len(a) == 1 and not isinstance(a[0], T) else a)] if a else None))
    if name == "astype":
        return fn(name, lambda ip, a, k: convert(ip, copy_arr(ip, ref), a[0] if a else k.get("dtype")))
    if name == "item":
        def item(ip, a, k):
            if a:
                return ip.getitem(ref, a[0] if len(a) == 1 else tuple(a))
            s = scalar(ip, ref)
            if s is None:
                ip.raise_("ValueError", "can only convert an array of size 1")
            return s
        return fn(name, item)
    if name == "dot":
        return fn(name, lambda ip, a, k: np_dot(ip, [ref] + a, k))
    if name == "fill":
        return fn(name, lambda ip, a, k: setitem(ip, ref, ip.get(ref), ELLIPSIS, a[0]))
    if name == "clip":
        return fn(name, lambda ip, a, k: np_clip(ip, [ref] + a, k))
    if name == "squeeze":
        return fn(name, lambda ip, a, k: np_squeeze(ip, [ref] + a, k))
    if name == "setflags":
        return fn(name, lambda ip, a, k: None)
    if name == "round":
        return fn(name, lambda ip, a, k: map_arr(ip, ref, lambda x: ip.call(ip.builtins["round"], [x] + a, k)))
    if name in RED:
        g = reduction(RED[name])

        def method(ip, a, k):
            kk = dict(k)
            if a:
                kk["axis"] = a[0]
            return g(ip, [ref], kk)
        return fn(name, method)
    if name in ("__len__",):
        return fn(name, lambda ip, a, k: shp[0])
    ip.bm.no_attr(ip, "array", name)


def np_squeeze(ip, a, k):
    v = as_arr(ip, a[0])
    shp = shape(ip, v)
    keep = [j for j, s in enumerate(shp) if s is not ONE]
    if len(keep) == len(shp):
        return v

    def el(i):
        idx = [ZERO] * len(shp)
        for j, q in zip(keep, i):
            idx[j] = q
        return elem(ip, v, tuple(idx))
    return build(ip, tuple(shp[j] for j in keep), el)


def setattr_(ip, ref, c, name, v):
    if name == "shape":
        r = reshape(ip, ref, shape_arg(ip, v))
        cc = ip.get(r)
        ip.put(ref, cc)
        return
    raise Unsupported(f"assignment to array attribute {name}")


# ------------------------------------------------------------------ module

def ufunc1(f):
    def g(ip, a, k):
        return elementwise(ip, lambda x: num(ip, x, f), a[0])
    return g


def num(ip, x, f):
    from . import builtin_models as bm
    return bm.num1(ip, x, f)


def ufunc2(op):
    def g(ip, a, k):
        return elementwise(ip, lambda x, y: ip.binop(op, x, y), a[0], a[1])
    return g


def np_copy(ip, a, k):
    v = as_arr(ip, a[0])
    return copy_arr(ip, v) if isinstance(v, Ref) else v


def np_minmax(kind):
    def g(ip, a, k):
        return elementwise(ip, lambda x, y: tm.minmax(kind, [x, y]), a[0], a[1])
    return g


def np_shape(ip, a, k):
    v = as_arr(ip, a[0])
    return tuple(shape(ip, v)) if isinstance(v, Ref) else ()


def np_atleast(n):
    def g(ip, a, k):
        v = as_arr(ip, a[0])
        if not isinstance(v, Ref):
            return build(ip, (ONE,) * n, lambda i: v)
        s = shape(ip, v)
        return v if len(s) >= n else reshape(ip, v, [ONE] * (n - len(s)) + list(s))
    return g


def np_sqrt(ip, a, k):
    return elementwise(ip, lambda x: num(ip, x, tm.sqrt), a[0])


def np_repeat_tile(ip, a, k):
    v = as_arr(ip, a[0])
    n = a[1]
    if not isinstance(v, Ref):
        return build(ip, (n,), lambda i: v)
    raise Unsupported("tile")


FUNCS = {
    "array": np_array, "fromiter": np_fromiter, "asarray": np_asarray, "ascontiguousarray": np_asarray, "asanyarray": np_asarray,
    "zeros": np_full(ZERO), "ones": np_full(ONE), "full": np_full(None), "empty": np_empty,
    "zeros_like": np_full_like(ZERO), "ones_like": np_full_like(ONE), "full_like": np_full_like(None),
    "empty_like": np_full_like(tm.sym("np_empty_like")),
    "arange": np_arange, "linspace": np_linspace, "eye": np_eye, "identity": np_eye,
    "copy": np_copy, "dot": np_dot, "vdot": np_dot, "inner": np_inner, "outer": np_outer, "cross": np_cross,
    "matmul": lambda ip, a, k: matmul(ip, a[0], a[1]),
    "sqrt": np_sqrt, "exp": ufunc1(tm.exp), "log": ufunc1(tm.log), "abs": ufunc1(tm.absv), "absolute": ufunc1(tm.absv),
    "fabs": ufunc1(tm.absv), "negative": ufunc1(tm.neg), "square": ufunc1(lambda t: tm.mul(t, t)),
    **{n: ufunc1(lambda t, n=n: tm.fun(n, t)) for n in ("floor", "ceil", "trunc", "sin", "cos", "tan", "sinh", "cosh", "tanh", "arctan", "arcsin", "arccos", "log1p", "expm1")},
    "rint": ufunc1(lambda t: tm.fun("round", t)),
    "add": ufunc2("add"), "subtract": ufunc2("sub"), "multiply": ufunc2("mul"), "divide": ufunc2("truediv"),
    "true_divide": ufunc2("truediv"), "power": ufunc2("pow"), "mod": ufunc2("mod"), "floor_divide": ufunc2("floordiv"),
    "maximum": np_minmax("max"), "minimum": np_minmax("min"), "fmax": np_minmax("max"), "fmin": np_minmax("min"),
    "concatenate": np_concatenate, "stack": np_stack, "vstack": np_vstack, "hstack": np_hstack, "column_stack": np_column_stack,
    "where": np_where, "isclose": np_isclose, "allclose": np_allclose, "array_equal": np_array_equal,
    "transpose": lambda ip, a, k: transpose(ip, as_arr(ip, a[0])),
    "reshape": lambda ip, a, k: reshape(ip, as_arr(ip, a[0]), shape_arg(ip, a[1])),
    "ravel": lambda ip, a, k: reshape(ip, as_arr(ip, a[0]), [tm.NEG1]),
    "squeeze": np_squeeze, "clip": np_clip, "cumsum": np_cumsum, "diff": np_diff, "einsum": np_einsum,
    "isfinite": lambda ip, a, k: elementwise(ip, lambda x: TRUE, a[0]),
    "isnan": lambda ip, a, k: elementwise(ip, lambda x: FALSE, a[0]),
    "isinf": lambda ip, a, k: elementwise(ip, lambda x: FALSE, a[0]),
    "shape": np_shape, "size": lambda ip, a, k: getattr_(ip, as_arr(ip, a[0]), None, "size") if isinstance(as_arr(ip, a[0]), Ref) else ONE,
    "ndim": lambda ip, a, k: tm.const(len(np_shape(ip, a, k))),
    "atleast_1d": np_atleast(1), "atleast_2d": np_atleast(2), "tile": np_repeat_tile, "repeat": np_repeat_tile,
    "logical_and": lambda ip, a, k: elementwise(ip, lambda x, y: tm.band(ip.truth(x), ip.truth(y)), a[0], a[1]),
    "logical_or": lambda ip, a, k: elementwise(ip, lambda x, y: tm.bor(ip.truth(x), ip.truth(y)), a[0], a[1]),
    "logical_not": lambda ip, a, k: elementwise(ip, lambda x: tm.bnot(ip.truth(x)), a[0]),
    "sign": ufunc1(lambda t: tm.sub(tm.b2i(tm.pos(t)), tm.b2i(tm.lt(t, ZERO)))),
    "trace": lambda ip, a, k: summed(ip, shape(ip, as_arr(ip, a[0]))[0], lambda q: elem(ip, as_arr(ip, a[0]), (q, q))),
    "diag": lambda ip, a, k: np_diag(ip, a, k),
    "errstate": lambda ip, a, k: ExtV("numpy.errstate()"), "seterr": lambda ip, a, k: None,
    "set_printoptions": lambda ip, a, k: None,
    "hypot": lambda ip, a, k: elementwise(ip, lambda x, y: tm.sqrt(tm.add(tm.mul(x, x), tm.mul(y, y))), a[0], a[1]),
}


def np_diag(ip, a, k):
    v = as_arr(ip, a[0])
    shp = shape(ip, v)
    if len(shp) == 2:
        return build(ip, (shp[0],), lambda i: elem(ip, v, (i[0], i[0])))
    return build(ip, (shp[0], shp[0]), lambda i: ip.mk_ite(tm.eq(i[0], i[1]), elem(ip, v, i[:1]), ZERO))


LINALG = {"norm": la_norm, "det": la_det, "inv": la_inv, "solve": la_solve}


def module_attr(ip, m, name):
    if m.name == "numpy":
        if name in RED:
            return fn(name, reduction(RED[name]))
        if name in FUNCS:
            return fn(name, FUNCS[name])
        if name == "linalg":
            return ip.module("numpy.linalg")
        if name == "polynomial":
            return ip.module("numpy.polynomial")
        if name in ("typing", "random"):
            return ip.module("numpy." + name) if name == "typing" else ExtV("random.numpy")
        if name == "newaxis":
            return None
        if name == "pi":
            from . import lib_std
            return lib_std.STD["math"]["pi"]
        if name == "inf":
            return tm.INF
        if name == "ndarray":
            return ip.bm.type_class(ip, "ndarray")
        if name in ("float64", "float_", "double", "longdouble"):
            return ip.bm.type_class(ip, "float")
        if name in ("int64", "int32", "intp", "int_"):
            return ip.bm.type_class(ip, "int")
        if name in ("bool_",):
            return ip.bm.type_class(ip, "bool")
        return ExtV("numpy." + name)
    if m.name == "numpy.linalg":
        if name in LINALG:
            return fn(name, LINALG[name])
    if m.name == "numpy.polynomial" and name == "legendre":
        return ip.module("numpy.polynomial.legendre")
    if m.name == "numpy.polynomial.legendre" and name == "leggauss":
        return fn("leggauss", leggauss)
    if m.name == "numpy.random":
        return ExtV("random.numpy." + name)
    return ExtV(m.name + "." + name)
