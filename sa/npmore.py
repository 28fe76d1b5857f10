"""Further numpy/math vocabulary: element types, rounding, shaping, small
linear algebra, and the `out=`/`where=` forms of the elementwise functions."""
import math
from . import terms as T
from . import gated as G
from .terms import Poly, Fr
from .gated import Node, Tup, lift, ite, b_and, b_or, b_not
from .interp import ArrRef, ArrC, Ext, Builtin, Opq, NAN, UNBOUND


# ------------------------------------------------------------ element types
def dtype_of(d):
    """element type named by a dtype argument: None (float64/unknown), 'int',
    'bool' or the name of a narrower float"""
    if isinstance(d, Builtin):
        return {"int": "int", "bool": "bool"}.get(d.name)
    n = d.path.rpartition(".")[2] if isinstance(d, Ext) else d if isinstance(d, str) else ""
    n = n.lstrip("<>=")
    if n in ("float32", "float16", "half", "single", "f4", "f2", "f"):
        return {"half": "float16", "f2": "float16"}.get(n, "float32")
    if n.startswith(("int", "uint")) or n in ("i4", "i8", "i", "byte", "short", "long", "longlong"):
        return "int"
    if n in ("bool", "bool_"):
        return "bool"
    return None


def trunc(it, v):
    def f(x):
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, Poly):
            c = x.const()
            if c is not None:
                return int(c)
            return T.app("int", x)
        return x
    return lift(f, v)


def narrow(name):
    def g(it, v):
        def f(x):
            if isinstance(x, (bool, int)):
                return T.const(int(x))
            if isinstance(x, Poly):
                c = x.const()
                if c is not None and c.denominator & (c.denominator - 1) == 0 and abs(c.numerator) < 1024:
                    return x
                if x is T.INF or x is -T.INF:
                    return x
                return T.app(name, x)
            return x
        return lift(f, v)
    return g


def convert(it, st, v, dt, node=None):
    """one element as the element type dt stores it"""
    if dt == "int":
        return trunc(it, v)
    if dt == "bool":
        return it.truth(v, st, node) if v is not UNBOUND else v
    if dt is not None:
        return narrow(dt)(it, v)
    return v


def typed(it, st, ref, dt, node=None):
    """give the (fresh) array ref the element type dt"""
    if dt is None:
        return ref
    c = st.heap[ref.loc]
    st.heap[ref.loc] = ArrC((convert(it, st, v, dt, node) for v in c.elems), dt)
    return ref


def all_ints(el):
    return bool(el) and all(isinstance(l, int) and not isinstance(l, bool) for x in el for l, _ in G.leaves(x))


# ---------------------------------------------------------------- rounding
def round_leaf(x, n):
    if x is NAN or isinstance(x, int):
        return x
    if isinstance(x, Poly):
        if x is T.INF or x is -T.INF:
            return x
        c = x.const()
        if c is not None:
            return T.const(Fr(round(c, n)) if n else Fr(round(c)))
        return T.app("round", x, T.const(n)) if n else T.app("round", x)
    return Opq("round", (x, n))


def install(M):
    UN, BIN, NPF, EXT, ARRM, BUI = M.UN, M.BIN, M.NPF, M.EXT, M.ARRM, M.BUI
    as_nested, snapshot, elementwise, mul, add, _arg = M.as_nested, M.snapshot, M.elementwise, M.mul, M.add, M._arg
    size = M.size

    def opq(name, it, st, args):
        return Opq(name, tuple(snapshot(it, st, a) for a in args))

    # --- elementwise
    half = T.const(Fr(1, 2))
    UN.update({
        "sinh": lambda p: half * (T.fexp(p) - T.fexp(-p)), "cosh": lambda p: half * (T.fexp(p) + T.fexp(-p)),
        "tanh": lambda p: (T.fexp(p) - T.fexp(-p)) / (T.fexp(p) + T.fexp(-p)),
        "expm1": lambda p: T.fexp(p) - T.ONE, "log1p": lambda p: T.flog(T.ONE + p),
        "log10": lambda p: T.flog(p) / T.flog(T.const(10)), "log2": lambda p: T.flog(p) / T.flog(T.const(2)),
        "exp2": lambda p: T.gpow(T.const(2), p), "trunc": lambda p: T.app("int", p), "fix": lambda p: T.app("int", p),
        "rint": lambda p: round_leaf(p, 0), "sinc": lambda p: T.app("sinc", p), "spacing": lambda p: T.app("spacing", p),
        "conj": lambda p: p, "conjugate": lambda p: p, "real": lambda p: p, "longdouble": lambda p: p,
        "float32": lambda p: T.app("float32", p), "single": lambda p: T.app("float32", p), "float16": lambda p: T.app("float16", p),
        "half": lambda p: T.app("float16", p), "arcsinh": lambda p: T.app("arcsinh", p), "arccosh": lambda p: T.app("arccosh", p),
        "arctanh": lambda p: T.app("arctanh", p), "asinh": lambda p: T.app("arcsinh", p), "acosh": lambda p: T.app("arccosh", p),
        "atanh": lambda p: T.app("arctanh", p), "nextafter": lambda p: T.app("nextafter", p), "i0": lambda p: T.app("i0", p),
        "erf": lambda p: T.app("erf", p), "gamma": lambda p: T.app("gamma", p)})
    BIN.update({"nextafter": lambda a, b: T.app("nextafter", a, b), "ldexp": lambda a, b: a * T.gpow(T.const(2), b),
                "logaddexp": lambda a, b: T.app("logaddexp", a, b)})
    del UN["nextafter"]

    def f_round(it, st, node, args, kw):
        n = it.as_index(_arg(args, kw, 1, "decimals", kw.get("ndigits", 0)))
        n = 0 if n is None else n
        if not isinstance(n, int):
            return opq("round", it, st, args)
        return elementwise(it, st, node, lambda x: lift(lambda v: round_leaf(v, n), x), args[0])

    def b_round(it, st, node, args, kw):
        if isinstance(args[0], ArrRef):
            return f_round(it, st, node, args, kw)
        n = it.as_index(_arg(args, kw, 1, "ndigits"))
        if n is None:
            def f(x):
                r = round_leaf(x, 0)
                c = r.const() if isinstance(r, Poly) else None
                return int(c) if c is not None else r
            return lift(f, args[0])
        if not isinstance(n, int):
            return opq("round", it, st, args)
        return lift(lambda v: round_leaf(v, n), args[0])

    def f_close(fold):
        def g(it, st, node, args, kw):
            r = _arg(args, kw, 2, "rtol", T.const(Fr(1, 10 ** 5)))
            t = _arg(args, kw, 3, "atol", T.const(Fr(1, 10 ** 8)))

            def c(x, y):
                d = M.un(it, "abs", it.binop("Sub", x, y, st, node))
                return it.compare("LtE", d, add(it, t, mul(it, r, M.un(it, "abs", y))), st, node)
            v = elementwise(it, st, node, c, args[0], args[1])
            if not fold:
                return v
            n = as_nested(it, v, st, node)
            return M._all(it, n[1], st, node) if n is not None else opq("allclose", it, st, args)
        return g

    def m_isclose(it, st, node, args, kw):
        r, t = kw.get("rel_tol", T.const(Fr(1, 10 ** 9))), kw.get("abs_tol", T.ZERO)
        a, b = args[:2]
        d = M.un(it, "abs", it.binop("Sub", a, b, st, node))
        big = M.vmax(it, M.un(it, "abs", a), M.un(it, "abs", b))
        return it.compare("LtE", d, M.vmax(it, mul(it, r, big), t), st, node)

    def f_copysign(it, st, node, args, kw):
        def g(a, b):
            m = M.un(it, "abs", a)
            return ite(it.compare("Lt", b, T.ZERO, st, node), it.binop("Sub", T.ZERO, m, st, node), m)
        return elementwise(it, st, node, g, args[0], args[1])

    def f_isinf(it, st, node, args, kw):
        return elementwise(it, st, node, lambda x: lift(lambda v: v is T.INF or v is -T.INF, x), args[0])

    def f_nan_to_num(it, st, node, args, kw):
        z = _arg(args, kw, 2, "nan", T.ZERO)
        return elementwise(it, st, node, lambda x: lift(lambda v: ite(M.isnan_leaf(v), z, v), x), args[0])

    # --- shaping
    def nested1(name):
        def deco(f):
            def g(it, st, node, args, kw):
                r = as_nested(it, args[0], st, node)
                if r is None:
                    return opq(name, it, st, args)
                return f(it, st, node, r[0], list(r[1]), list(args[1:]), kw)
            NPF[name] = g
            return g
        return deco

    @nested1("tile")
    def f_tile(it, st, node, sh, el, args, kw):
        reps = M.shape_arg(it, _arg(args, kw, 0, "reps"), st, node)
        if reps is None:
            return NotImplemented
        n = max(len(reps), len(sh))
        reps, sh = (1,) * (n - len(reps)) + tuple(reps), (1,) * (n - len(sh)) + tuple(sh)
        out = tuple(a * b for a, b in zip(reps, sh))
        vals = []
        for k in range(size(out)):
            idx, q = [], k
            for d in reversed(out):
                idx.append(q % d)
                q //= d
            idx.reverse()
            o = 0
            for i, d in zip(idx, sh):
                o = o * d + i % d
            vals.append(el[o])
        return it.new_array(st, out, vals)

    @nested1("repeat")
    def f_repeat(it, st, node, sh, el, args, kw):
        n = it.as_index(_arg(args, kw, 0, "repeats"))
        ax = it.as_index(_arg(args, kw, 1, "axis"))
        if not isinstance(n, int):
            return NotImplemented
        if ax is None or len(sh) <= 1:
            v = [x for x in el for _ in range(n)]
            return it.new_array(st, (len(v),), v)
        if ax == 0 and len(sh) == 2:
            v = [el[i * sh[1] + j] for i in range(sh[0]) for _ in range(n) for j in range(sh[1])]
            return it.new_array(st, (sh[0] * n, sh[1]), v)
        return NotImplemented

    @nested1("roll")
    def f_roll(it, st, node, sh, el, args, kw):
        n = it.as_index(_arg(args, kw, 0, "shift"))
        if not isinstance(n, int) or (_arg(args, kw, 1, "axis") is not None and len(sh) != 1):
            return NotImplemented
        k = n % len(el) if el else 0
        return it.new_array(st, sh, el[-k:] + el[:-k] if k else el)

    def f_squeeze(it, st, node, args, kw):
        v = args[0]
        if isinstance(v, ArrRef):
            return ArrRef(v.loc, tuple(s for s in v.shape if s != 1), v.idx)
        r = as_nested(it, v, st, node)
        return it.new_array(st, tuple(s for s in r[0] if s != 1), r[1]) if r is not None else opq("squeeze", it, st, args)

    @nested1("expand_dims")
    def f_expand(it, st, node, sh, el, args, kw):
        ax = it.as_index(_arg(args, kw, 0, "axis"))
        if not isinstance(ax, int):
            return NotImplemented
        ax = ax if ax >= 0 else ax + len(sh) + 1
        return it.new_array(st, tuple(sh[:ax]) + (1,) + tuple(sh[ax:]), el)

    @nested1("swapaxes")
    def f_swap(it, st, node, sh, el, args, kw):
        if len(sh) != 2:
            return NotImplemented
        a, b = (it.as_index(x) % 2 for x in args[:2])
        if a == b:
            return it.new_array(st, sh, el)
        return it.new_array(st, (sh[1], sh[0]), [el[i * sh[1] + j] for j in range(sh[1]) for i in range(sh[0])])

    def f_split(it, st, node, args, kw):
        v = args[0] if isinstance(args[0], ArrRef) else M.to_array(it, args[0], st, node)
        k = it.as_index(_arg(args, kw, 1, "indices_or_sections"))
        if v is None or _arg(args, kw, 2, "axis") not in (None, 0):
            return NotImplemented
        n = v.shape[0]
        if isinstance(k, int):
            q, m = divmod(n, k)
            ends, p = [], 0
            for i in range(k):
                p += q + (1 if i < m else 0)
                ends.append(p)
            cuts = ends[:-1]
        else:
            cuts = [it.as_index(x) for x in it.iterate(k, st, node)]
        if not all(isinstance(c, int) for c in cuts):
            return NotImplemented
        parts, lo, w = [], 0, size(v.shape[1:])
        for hi in list(cuts) + [n]:
            hi = max(lo, min(hi, n))
            parts.append(ArrRef(v.loc, (hi - lo,) + v.shape[1:], v.idx[lo * w:hi * w]))
            lo = hi
        return it.new_list(st, parts)

    @nested1("take")
    def f_take(it, st, node, sh, el, args, kw):
        if len(sh) != 1:
            return NotImplemented
        k = it.as_index(_arg(args, kw, 0, "indices"))
        if isinstance(k, int):
            return el[k]
        ks = [it.as_index(x) for x in it.iterate(k, st, node)]
        if not all(isinstance(x, int) for x in ks):
            return NotImplemented
        return it.new_array(st, (len(ks),), [el[x] for x in ks])

    @nested1("broadcast_to")
    def f_bto(it, st, node, sh, el, args, kw):
        out = M.shape_arg(it, _arg(args, kw, 0, "shape"), st, node)
        if out is None or M.bshape(sh, out) != tuple(out):
            return NotImplemented
        return it.new_array(st, out, M.bget(sh, el, out))

    @nested1("trace")
    def f_trace(it, st, node, sh, el, args, kw):
        return M.vsum(it, [el[i * sh[1] + i] for i in range(min(sh))]) if len(sh) == 2 else NotImplemented

    @nested1("cumprod")
    def f_cumprod(it, st, node, sh, el, args, kw):
        out, s = [], T.ONE
        for x in el:
            s = mul(it, s, x)
            out.append(s)
        return it.new_array(st, (len(out),), out)

    @nested1("sort")
    def f_sort(it, st, node, sh, el, args, kw):
        r = M.sort_network(it, st, node, el, None, False) if len(sh) == 1 else None
        return opq("sort", it, st, [it.new_array(st, sh, el)]) if r is None else it.new_array(st, sh, r)

    @nested1("argsort")
    def f_argsort(it, st, node, sh, el, args, kw):
        if len(sh) != 1 or len(el) > 5:
            return NotImplemented
        xs = list(enumerate(el))
        for n in range(len(xs) - 1, 0, -1):
            for j in range(n):
                (i, a), (k, b) = xs[j], xs[j + 1]
                sw = it.truth(it.compare("Lt", b, a, st, node), st, node)
                xs[j], xs[j + 1] = (ite(sw, k, i), ite(sw, b, a)), (ite(sw, i, k), ite(sw, a, b))
        return it.new_array(st, sh, [i for i, _ in xs])

    @nested1("average")
    def f_average(it, st, node, sh, el, args, kw):
        w = _arg(args, kw, 1, "weights")
        if _arg(args, kw, 0, "axis") is not None:
            return NotImplemented
        if w is None:
            return it.binop("Div", M.vsum(it, el), len(el), st, node)
        ws = as_nested(it, w, st, node)
        if ws is None or ws[0] != sh:
            return NotImplemented
        return it.binop("Div", M.vsum(it, [mul(it, a, b) for a, b in zip(el, ws[1])]), M.vsum(it, ws[1]), st, node)

    @nested1("ptp")
    def f_ptp(it, st, node, sh, el, args, kw):
        return it.binop("Sub", M._fold(M.vmax)(it, el, st, node), M._fold(M.vmin)(it, el, st, node), st, node)

    @nested1("median")
    def f_median(it, st, node, sh, el, args, kw):
        r = M.sort_network(it, st, node, el, None, False)
        if r is None:
            return opq("median", it, st, [it.new_array(st, sh, el)])
        n = len(r)
        return r[n // 2] if n % 2 else it.binop("Div", add(it, r[n // 2 - 1], r[n // 2]), 2, st, node)

    def spread(it, st, name, sh, el, *more):
        """an array whose elements are unknown functions of all of el"""
        if sh == ():
            return Opq(name, tuple(el) + more)
        whole = tuple(el) + more
        return it.new_array(st, sh, [Opq("item", (Opq(name, whole), i)) for i in range(size(sh))])

    for nm in ("unwrap", "gradient", "nancumsum"):
        NPF[nm] = (lambda nm: lambda it, st, node, args, kw: (lambda r: NotImplemented if r is None else spread(it, st, nm, r[0], r[1]))(
            as_nested(it, args[0], st, node)))(nm)

    def f_fromiter(it, st, node, args, kw):
        items = it.try_iterate(args[0], st, node)
        return NotImplemented if items is None else it.new_array(st, (len(items),), items)

    def f_select(it, st, node, args, kw):
        cs, xs = it.iterate(args[0], st, node), it.iterate(args[1], st, node)
        r = _arg(args, kw, 2, "default", T.ZERO)
        for c, x in reversed(list(zip(cs, xs))):
            r = elementwise(it, st, node, lambda c, x, r: ite(it.truth(c, st, node), x, r), c, x, r)
        return r

    def f_heaviside(it, st, node, args, kw):
        return elementwise(it, st, node, lambda x, h: ite(it.compare("Lt", x, T.ZERO, st, node), T.ZERO, ite(
            it.compare("Gt", x, T.ZERO, st, node), T.ONE, h)), args[0], args[1])

    def f_tensordot(it, st, node, args, kw):
        ax = it.as_index(_arg(args, kw, 2, "axes", 2))
        return M.matmul(it, args[0], args[1], st, node) if ax == 1 else NotImplemented

    def f_logxor(it, st, node, args, kw):
        return elementwise(it, st, node, lambda a, b: (lambda x, y: b_or(b_and(x, b_not(y)), b_and(y, b_not(x))))(
            it.truth(a, st, node), it.truth(b, st, node)), *args[:2])

    # --- small linear algebra
    def mat(it, st, node, v, n=3):
        r = as_nested(it, v, st, node)
        if r is None or len(r[0]) != 2 or r[0][0] != r[0][1] or r[0][0] > n:
            return None
        k = r[0][0]
        return [[r[1][i * k + j] for j in range(k)] for i in range(k)]

    def sub(it, a, b):
        return it.binop("Sub", a, b, None)

    def det(it, m):
        if len(m) == 1:
            return m[0][0]
        s = T.ZERO
        for j in range(len(m)):
            t = mul(it, m[0][j], det(it, [r[:j] + r[j + 1:] for r in m[1:]]))
            s = add(it, s, t) if j % 2 == 0 else sub(it, s, t)
        return s

    def inverse(it, m):
        d, n = det(it, m), len(m)
        if n == 1:
            return [[it.binop("Div", T.ONE, d, None)]]
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                c = det(it, [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j])
                out[i][j] = it.binop("Div", c if (i + j) % 2 == 0 else sub(it, T.ZERO, c), d, None)
        return out

    def f_det(it, st, node, args, kw):
        m = mat(it, st, node, args[0])
        return opq("det", it, st, args) if m is None else det(it, m)

    def f_inv(it, st, node, args, kw):
        m = mat(it, st, node, args[0])
        if m is None:
            return opq("inv", it, st, args)
        r = inverse(it, m)
        return it.new_array(st, (len(m),) * 2, [x for row in r for x in row])

    def f_solve(it, st, node, args, kw):
        m = mat(it, st, node, args[0])
        if m is None:
            return opq("solve", it, st, args)
        r = inverse(it, m)
        return M.matmul(it, it.new_array(st, (len(m),) * 2, [x for row in r for x in row]), args[1], st, node)

    def f_log2(it, st, node, args, kw):
        if len(args) < 2:
            return NotImplemented
        return it.binop("Div", M.un(it, "log", args[0]), M.un(it, "log", args[1]), st, node)
    EXT["math.log"] = f_log2
    EXT.update({"numpy.linalg.det": f_det, "numpy.linalg.inv": f_inv, "numpy.linalg.solve": f_solve, "math.isclose": m_isclose,
                "math.fsum": NPF["sum"], "math.prod": NPF["prod"],
                "math.trunc": lambda it, st, node, args, kw: trunc(it, args[0])})

    def f_dist(it, st, node, args, kw):
        return M.norm(it, st, node, elementwise(it, st, node, lambda a, b: it.binop("Sub", a, b, st, node), args[0], args[1]))
    EXT["math.dist"] = f_dist

    def f_vectorize(it, st, node, args, kw):
        return M.Partial(Ext("sa.vectorized"), [args[0]], {})

    def f_vectorized(it, st, node, args, kw):
        f, rest = args[0], args[1:]
        return elementwise(it, st, node, lambda *v: it.call(f, list(v), dict(kw), st, node), *rest)
    EXT["sa.vectorized"] = f_vectorized
    EXT["numpy.vectorize"] = f_vectorize

    def f_along(it, st, node, args, kw):
        f, ax, v = args[0], it.as_index(args[1]), args[2]
        v = v if isinstance(v, ArrRef) else M.to_array(it, v, st, node)
        if v is None or len(v.shape) != 2 or ax not in (0, 1, -1, -2):
            return NotImplemented
        if ax in (0, -2):
            v = M.transpose(v)
        n, m = v.shape
        rows = [it.call(f, [ArrRef(v.loc, (m,), v.idx[i * m:(i + 1) * m])] + list(args[3:]), dict(kw), st, node) for i in range(n)]
        r = M.to_array(it, Tup(rows), st, node)
        return NotImplemented if r is None else M.transpose(r) if ax in (0, -2) else r
    EXT["numpy.apply_along_axis"] = f_along

    NPF.update({
        "round": f_round, "around": f_round, "round_": f_round, "isclose": f_close(False), "allclose": f_close(True),
        "isinf": f_isinf, "nan_to_num": f_nan_to_num, "squeeze": f_squeeze, "split": f_split, "array_split": f_split,
        "fromiter": f_fromiter, "select": f_select, "heaviside": f_heaviside, "tensordot": f_tensordot, "logical_xor": f_logxor,
        "asanyarray": M.f_asarray, "copysign": f_copysign,
        "signbit": lambda it, st, node, args, kw: elementwise(it, st, node, lambda x: it.compare("Lt", x, T.ZERO, st, node), args[0]),
        "ndim": lambda it, st, node, args, kw: (lambda r: NotImplemented if r is None else len(r[0]))(as_nested(it, args[0], st, node)),
        "isscalar": lambda it, st, node, args, kw: not isinstance(args[0], (ArrRef, Tup)) and not hasattr(args[0], "loc"),
        "trapz": lambda it, st, node, args, kw: f_trapz(it, st, node, args, kw),
        "trapezoid": lambda it, st, node, args, kw: f_trapz(it, st, node, args, kw)})
    BIN.pop("copysign", None)

    def f_trapz(it, st, node, args, kw):
        y = as_nested(it, args[0], st, node)
        xv = _arg(args, kw, 1, "x")
        x = as_nested(it, xv, st, node) if xv is not None else None
        if y is None or len(y[0]) != 1 or (xv is not None and (x is None or x[0] != y[0])):
            return opq("trapz", it, st, args)
        s = T.ZERO
        for i in range(len(y[1]) - 1):
            d = it.binop("Sub", x[1][i + 1], x[1][i], st, node) if x is not None else _arg(args, kw, 2, "dx", T.ONE)
            s = add(it, s, it.binop("Div", mul(it, d, add(it, y[1][i], y[1][i + 1])), 2, st, node))
        return s

    BUI["round"] = b_round

    # --- element types of created arrays
    def with_dtype(name, pos, ints):
        f = NPF[name]

        def g(it, st, node, args, kw):
            d = args[pos] if len(args) > pos else kw.get("dtype")
            dt = dtype_of(d)
            if name.endswith("_like") and d is None and args and isinstance(args[0], ArrRef):
                c = st.heap[args[0].loc]
                dt = c.dt if isinstance(c, ArrC) else None
            elif name.endswith("_like") and d is None and args:
                q = as_nested(it, args[0], st, node)
                dt = "int" if q is not None and all_ints(q[1]) else None
            if d is not None and dt is not None and "like" not in name and args and isinstance(args[0], ArrRef) and name.startswith(("as", "array")):
                r = it.new_array(st, args[0].shape, it.arr_elems(st, args[0]))
            else:
                r = f(it, st, node, args, kw)
            if isinstance(r, ArrRef) and isinstance(st.heap[r.loc], ArrC):
                if dt is None and d is None and ints and all_ints(st.heap[r.loc].elems) and not (args and r is args[0]):
                    dt = "int"
                return typed(it, st, r, dt, node) if dt != st.heap[r.loc].dt else r
            if dt is not None and not isinstance(r, ArrRef):
                return convert(it, st, r, dt, node)
            return r
        NPF[name] = g
    for nm, pos, ints in (("array", 1, True), ("asarray", 1, True), ("asanyarray", 1, True), ("zeros", 1, False), ("ones", 1, False), ("empty", 1, False),
                          ("zeros_like", 1, False), ("ones_like", 1, False), ("empty_like", 1, False), ("full", 2, True),
                          ("full_like", 2, False)):
        with_dtype(nm, pos, ints)

    def f_astype(it, st, node, o, args, kw):
        r = it.new_array(st, o.shape, it.arr_elems(st, o))
        return typed(it, st, r, dtype_of(_arg(args, kw, 0, "dtype")), node)
    ARRM["astype"] = f_astype
    for nm in ("int8", "int16", "int32", "int64", "int_", "intp", "uint8", "uint32", "uint64", "integer"):
        NPF[nm] = lambda it, st, node, args, kw: elementwise(it, st, node, lambda x: trunc(it, x), args[0])

    # --- forms common to all elementwise functions
    base = M.np_call

    def np_call(it, name, args, kw, st, node):
        elt = name in UN or name in BIN or name in M.OPN or name in M.CMPN or name in ("maximum", "minimum", "fmax", "fmin", "sign", "clip",
                                                                                       "logical_and", "logical_or", "logical_not", "isnan", "copysign")
        out = kw.get("out")
        nin = 1 if name in UN or name in ("sign", "logical_not", "isnan") else 3 if name == "clip" else 2
        if elt and out is None and len(args) > nin:
            out, args = args[nin], args[:nin]
        if isinstance(out, Tup) and len(out.items) == 1:
            out = out.items[0]
        where = kw.get("where", True) if elt else True
        d = dtype_of(kw.get("dtype")) if elt else None
        if elt and (out is not None or where is not True or "dtype" in kw):
            kw = {k: v for k, v in kw.items() if k not in ("out", "where", "dtype", "casting")}
            r = base(it, name, args, kw, st, node)
            if r is NotImplemented:
                return r
            if d is not None:
                r = elementwise(it, st, node, lambda x: convert(it, st, x, d, node), r)
            if where is not True:
                prev = out if out is not None else Opq("uninitialised")
                r = elementwise(it, st, node, lambda c, x, p: ite(it.truth(c, st, node), x, p), where, r, prev)
            if isinstance(out, ArrRef):
                M.arr_setitem(it, out, Tup((M.ELLIPSIS,)), r, st, node)
                return out
            if out is not None:
                return NotImplemented
            return r
        return base(it, name, args, kw, st, node)
    M.np_call = np_call

    # numpy.add.reduce and friends
    cext = M.call_ext

    def call_ext(it, path, args, kw, st, node=None):
        p = M.canon(path)
        q = p.split(".")
        if len(q) == 3 and q[0] == "numpy" and q[2] in ("reduce", "outer", "accumulate") and q[1] in ("add", "multiply", "maximum", "minimum"):
            op = {"add": M.add, "multiply": M.mul, "maximum": M.vmax, "minimum": M.vmin}[q[1]]
            if q[2] == "reduce":
                ax = _arg(args, kw, 1, "axis", 0)
                r = M.reduce_axis(it, st, node, args[0], ax, lambda el: M._fold(op)(it, el, st, node))
                return opq(p, it, st, args) if r is None else r
            ra = as_nested(it, args[0], st, node)
            if q[2] == "outer":
                rb = as_nested(it, args[1], st, node)
                if ra is not None and rb is not None:
                    return it.new_array(st, tuple(ra[0]) + tuple(rb[0]), [op(it, a, b) for a in ra[1] for b in rb[1]])
            elif ra is not None and len(ra[0]) == 1:
                out = []
                for x in ra[1]:
                    out.append(x if not out else op(it, out[-1], x))
                return it.new_array(st, (len(out),), out)
        return cext(it, path, args, kw, st, node)
    M.call_ext = call_ext
