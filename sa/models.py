"""Semantics of the library vocabulary used by the analysed package
(numpy, math, sympy, builtins).  Everything not listed is uninterpreted."""
from . import terms as T
from . import gated as G
from .terms import Poly, Fr
from .gated import Node, Tup, lift, ite, b_and, b_or, b_not, vkey
from .interp import (Ref, Long, ArrRef, Func, Bound, Cls, Ext, Mod, Builtin, Method, Opq, OpaqueFn, SliceV, ListC, DictC, ArrC,
                     InstC, EnvC, State, NAN, UNBOUND, EMPTY, ELLIPSIS, Prop, Static, ClassM, Dead, Unsupported)


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, tuple(args), tuple(sorted(kw.items()))

    def __hash__(self):
        return hash((vkey(self.func), tuple(vkey(a) for a in self.args)))

    def __eq__(self, o):
        return isinstance(o, Partial) and vkey(o.func) == vkey(self.func) and [vkey(a) for a in o.args] == [vkey(a) for a in self.args] \
            and [(k, vkey(v)) for k, v in o.kw] == [(k, vkey(v)) for k, v in self.kw]


class LamFn:
    """function produced by sympy.lambdify"""

    def __init__(self, params, out):
        self.params, self.out = params, out      # params: nested lists of atom ids; out: nested tuples of Poly

    def __repr__(self):
        return "<lambdified>"

    def bind(self, it, st, args, node=None):
        m = {}

        def b(p, v):
            if isinstance(p, tuple):
                items = it.try_iterate(v, st, node)
                if items is None:
                    items = [it.opq_item(v, i) for i in range(len(p))]
                if len(items) != len(p):
                    it.raise_(st, "TypeError", f"lambdified function: expected {len(p)} values, got {len(items)}", node)
                for x, y in zip(p, items):
                    b(x, y)
            else:
                m[p] = v
        if len(args) != len(self.params):
            it.raise_(st, "TypeError", f"lambdified function takes {len(self.params)} arguments, {len(args)} given", node)
        for p, v in zip(self.params, args):
            b(p, v)
        return m

    def apply(self, it, st, args, kw, node=None):
        if kw:
            it.unsupported("keyword call of a lambdified function", node)
        m = self.bind(it, st, args, node)
        ids = list(m)

        def build(o):
            if isinstance(o, tuple):
                return it.new_list(st, [build(x) for x in o])
            return lift(lambda *vs: T.subst(o, {i: it.scalar(v) for i, v in zip(ids, vs)}), *[m[i] for i in ids])

        return build(self.out)


NP = ("numpy", "jax.numpy")
ALIASES = {"np": "numpy"}


def canon(path):
    p = path
    for pre in ("scipy.linalg.", "numpy.linalg.linalg."):
        if p.startswith(pre):
            p = "numpy.linalg." + p[len(pre):]
    return p


CONSTS = {
    "numpy.pi": lambda: T.PI, "math.pi": lambda: T.PI, "scipy.constants.pi": lambda: T.PI, "sympy.pi": lambda: T.PI,
    "numpy.inf": lambda: T.INF, "math.inf": lambda: T.INF, "numpy.Inf": lambda: T.INF, "sympy.oo": lambda: T.INF,
    "numpy.nan": lambda: NAN, "math.nan": lambda: NAN, "numpy.NaN": lambda: NAN, "numpy.NAN": lambda: NAN,
    "math.tau": lambda: T.PI * 2, "numpy.newaxis": lambda: None,
    "numpy.e": lambda: T.fexp(T.ONE), "math.e": lambda: T.fexp(T.ONE),
}


def ext_value(path):
    path = canon(path)
    if path in CONSTS:
        return CONSTS[path]()
    return Ext(path)


# ---------------------------------------------------------------- scalar fns
def _np1(f):
    def g(x):
        if x is NAN:
            return NAN
        return f(x)
    return g


def sgn(it, x):
    if x is NAN:
        return NAN
    return lift(lambda k: T.const(k), G.sign_of(it.scalar(x)))


def isnan_leaf(x):
    if x is NAN:
        return True
    if isinstance(x, (int, bool)):
        return False
    if isinstance(x, Poly):
        ats = T.all_atoms(x)
        # only results of uninterpreted computations may be nan
        if any(T._atoms[i].kind == "fn" and T._atoms[i].name not in ("sin", "cos", "exp", "floor", "abs") for i in ats):
            return G.boolvar(("isnan", x.key(), x))
        return False
    return G.boolvar(("isnan", vkey(x)))


UN = {"sqrt": T.fsqrt, "sin": T.fsin, "cos": T.fcos, "tan": T.ftan, "exp": T.fexp, "log": T.flog, "abs": T.fabs, "fabs": T.fabs,
      "absolute": T.fabs, "arccos": T.facos, "acos": T.facos, "arcsin": T.fasin, "asin": T.fasin, "arctan": T.fatan, "atan": T.fatan,
      "floor": T.ffloor, "square": lambda p: p * p, "cbrt": lambda p: T.power(p, Fr(1, 3)), "negative": lambda p: -p,
      "radians": lambda p: p * T.PI / T.const(180), "deg2rad": lambda p: p * T.PI / T.const(180),
      "degrees": lambda p: p * T.const(180) / T.PI, "rad2deg": lambda p: p * T.const(180) / T.PI,
      "reciprocal": lambda p: T.ONE / p, "ceil": lambda p: -T.ffloor(-p), "positive": lambda p: p,
      "float64": lambda p: p, "float_": lambda p: p, "float32": lambda p: p, "double": lambda p: p, "Abs": T.fabs}
BIN = {"arctan2": T.fatan2, "atan2": T.fatan2, "hypot": lambda a, b: T.fsqrt(a * a + b * b), "power": T.gpow, "pow": T.gpow,
       "float_power": T.gpow, "mod": T.fmod, "remainder": T.fmod, "fmod": lambda a, b: a - b * T.app("int", a / b),
       "floor_divide": lambda a, b: T.ffloor(a / b), "copysign": lambda a, b: T.app("copysign", a, b)}
OPN = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div"}
CMPN = {"greater": "Gt", "less": "Lt", "greater_equal": "GtE", "less_equal": "LtE", "equal": "Eq", "not_equal": "NotEq"}
DOMAIN = {"arccos", "acos", "arcsin", "asin"}


def un(it, name, x, st=None, node=None):
    f = UN[name]

    def g(v):
        if v is NAN:
            return NAN
        if isinstance(v, bool):
            v = int(v)
        if name in ("abs", "absolute", "fabs") and isinstance(v, int):
            return abs(v)
        if not it.is_num(v):
            return Opq(name, (v,))
        p = it.scalar(v)
        if p is T.INF or p is -T.INF:
            if name in ("abs", "absolute", "fabs"):
                return T.INF
        return f(p)

    if name in DOMAIN and st is not None:
        mod, fn, line = it.where(node)
        it.domain.append((st.pc, name, x, mod, fn, line))
    return lift(g, x)


def bi(it, name, x, y):
    f = BIN[name]

    def g(a, b):
        if a is NAN or b is NAN:
            return NAN
        if not it.is_num(a) or not it.is_num(b):
            return Opq(name, (a, b))
        return f(it.scalar(a), it.scalar(b))

    return lift(g, x, y)


def vmax(it, a, b):
    return _mm(it, a, b, 1)


def vmin(it, a, b):
    return _mm(it, a, b, -1)


def _mm(it, a, b, s):
    def g(x, y):
        if x is NAN:
            return NAN
        if y is NAN:
            return NAN
        if isinstance(x, int) and isinstance(y, int):
            return (max if s > 0 else min)(x, y)
        if not it.is_num(x) or not it.is_num(y):
            return Opq("max" if s > 0 else "min", (x, y))
        sg = G.sign_of(it._inf_guard(it.scalar(x) - it.scalar(y)))
        return lift(lambda k: x if k * s >= 0 else y, sg)
    return lift(g, a, b)


def clip(it, x, lo, hi):
    if lo is not None:
        x = vmax(it, x, lo)
    if hi is not None:
        x = vmin(it, x, hi)
    return x


# -------------------------------------------------------------------- arrays
def as_nested(it, v, st, node=None):
    """value -> (shape, flat elements) of what np.array(v) would be; None if unknown"""
    if isinstance(v, ArrRef):
        return v.shape, list(it.arr_elems(st, v))
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], InstC):
        return None
    if isinstance(v, (Ref, Tup)):
        items = it.try_iterate(v, st, node)
        if items is None:
            return None
        sub = [as_nested(it, x, st, node) for x in items]
        if any(s is None for s in sub):
            return None
        if not sub:
            return (0,), []
        sh = sub[0][0]
        if any(s[0] != sh for s in sub):
            return None
        return (len(items),) + tuple(sh), [e for s in sub for e in s[1]]
    if isinstance(v, Node):
        parts = [(l, c) for l, c in G.leaves(v) if b_and(c, st.pc) is not False]
        subs = [(as_nested(it, l, st, node), c) for l, c in parts]
        if any(s is None for s, _ in subs):
            return None
        sh = subs[0][0][0]
        if any(s[0] != sh for s, _ in subs):
            return None
        out = []
        for i in range(len(subs[0][0][1])):
            x = subs[-1][0][1][i]
            for s, c in reversed(subs[:-1]):
                x = ite(c, s[1][i], x)
            out.append(x)
        return sh, out
    return (), [v]


def to_array(it, v, st, node=None):
    r = as_nested(it, v, st, node)
    if r is None:
        return None
    return it.new_array(st, r[0], r[1])


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            return None
    return tuple(out)


def bget(shape, elems, out):
    """broadcast elements to shape out"""
    n = len(out)
    s = (1,) * (n - len(shape)) + tuple(shape)
    strides = []
    acc = 1
    for d in reversed(s):
        strides.append(0 if d == 1 else acc)
        acc *= d
    strides.reverse()
    res = []

    def rec(i, off):
        if i == n:
            res.append(elems[off])
            return
        for k in range(out[i]):
            rec(i + 1, off + k * strides[i])

    rec(0, 0)
    return res


def elementwise(it, st, node, fn, *vals):
    arrs = []
    anyarr = False
    for v in vals:
        if isinstance(v, (ArrRef, Ref, Tup)) or (isinstance(v, Node) and any(isinstance(l, (ArrRef, Ref, Tup)) for l, _ in G.leaves(v))):
            r = as_nested(it, v, st, node)
            if r is None:
                return Opq("elementwise", vals)
            arrs.append(r)
            anyarr = True
        else:
            arrs.append(((), [v]))
    if not anyarr:
        return fn(*[a[1][0] for a in arrs])
    sh = ()
    for a in arrs:
        sh = bshape(sh, a[0])
        if sh is None:
            it.raise_(st, "ValueError", "operands could not be broadcast together", node)
    cols = [bget(a[0], a[1], sh) for a in arrs]
    out = [fn(*xs) for xs in zip(*cols)]
    if sh == ():
        return out[0]
    return it.new_array(st, sh, out)


def arr_binop(it, name, a, b, st, node=None):
    if name == "MatMult":
        return matmul(it, a, b, st, node)
    for v in (a, b):
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], InstC):
            return Opq(name, (a, b))
        if isinstance(v, Opq):
            pass
    return elementwise(it, st, node, lambda x, y: it.binop(name, x, y, st, node), a, b)


def arr_compare(it, op, a, b, st, node=None):
    return elementwise(it, st, node, lambda x, y: it.compare(op, x, y, st, node), a, b)


def add(it, a, b):
    return it.binop("Add", a, b, None)


def mul(it, a, b):
    return it.binop("Mult", a, b, None)


def matmul(it, a, b, st, node=None):
    ra, rb = as_nested(it, a, st, node), as_nested(it, b, st, node)
    if ra is None or rb is None:
        return Opq("matmul", (a, b))
    (sa, ea), (sb, eb) = ra, rb
    if sa == () or sb == ():
        return elementwise(it, st, node, lambda x, y: mul(it, x, y), a, b)
    A = (1,) + sa if len(sa) == 1 else sa
    B = sb + (1,) if len(sb) == 1 else sb
    if len(A) != 2 or len(B) != 2:
        return Opq("matmul", (a, b))
    if A[1] != B[0]:
        it.raise_(st, "ValueError", f"matmul shape mismatch {sa} {sb}", node)
    out = []
    for i in range(A[0]):
        for j in range(B[1]):
            s = T.ZERO
            for k in range(A[1]):
                s = add(it, s, mul(it, ea[i * A[1] + k], eb[k * B[1] + j]))
            out.append(s)
    sh = ()
    if len(sa) == 2:
        sh += (A[0],)
    if len(sb) == 2:
        sh += (B[1],)
    if sh == ():
        return out[0]
    return it.new_array(st, sh, out)


def index_list(it, k, n, node):
    """one axis index -> (list of positions, keepdim)"""
    if isinstance(k, int) and not isinstance(k, bool):
        if not -n <= k < n:
            return None
        return [k % n], False
    if isinstance(k, SliceV):
        return list(range(n))[it.pyslice(k, node, n)], True
    return None


def arr_select(it, a, k, st, node):
    """-> (shape, flat base indices) or None"""
    ks = list(k.items) if isinstance(k, Tup) else [k]
    ks = [it.as_index(x) for x in ks]
    if any(x is ELLIPSIS for x in ks):
        i = next(j for j, x in enumerate(ks) if x is ELLIPSIS)
        n = len(a.shape) - (len([x for x in ks if x is not None]) - 1)
        ks = ks[:i] + [SliceV(None, None, None)] * n + ks[i + 1:]
    sel = []
    shape = []
    ax = 0
    for x in ks:
        if x is None:
            shape.append(1)
            continue
        if ax >= len(a.shape):
            it.raise_(st, "IndexError", "too many indices", node)
        if isinstance(x, (Ref, ArrRef, Tup)):
            items = it.try_iterate(x, st, node)
            if items is None:
                return None
            if items and all(isinstance(i, bool) for i in items):
                items = [j for j, b in enumerate(items) if b]
            items = [it.as_index(i) for i in items]
            if not all(isinstance(i, int) for i in items):
                return None
            sel.append([i % a.shape[ax] for i in items])
            shape.append(len(items))
            ax += 1
            continue
        r = index_list(it, x, a.shape[ax], node)
        if r is None:
            if isinstance(x, int):
                it.raise_(st, "IndexError", f"{x} out of {a.shape[ax]}", node)
            return None
        sel.append(r[0])
        if r[1]:
            shape.append(len(r[0]))
        ax += 1
    while ax < len(a.shape):
        sel.append(list(range(a.shape[ax])))
        shape.append(a.shape[ax])
        ax += 1
    strides = []
    acc = 1
    for d in reversed(a.shape):
        strides.append(acc)
        acc *= d
    strides.reverse()
    out = [0]
    for s, str_ in zip(sel, strides):
        out = [o + i * str_ for o in out for i in s]
    return tuple(shape), [a.idx[o] for o in out]


def arr_getitem(it, a, k, st, node=None):
    r = arr_select(it, a, k, st, node)
    if r is None:
        return Opq("item", (a, k))
    shape, idx = r
    if shape == () :
        c = st.heap[a.loc]
        if isinstance(c, Node):
            return lift(lambda x: x.elems[idx[0]], c)
        return c.elems[idx[0]]
    fancy = any(isinstance(x, (Ref, ArrRef)) for x in (k.items if isinstance(k, Tup) else [k]))
    v = ArrRef(a.loc, shape, idx)
    if fancy:
        return it.new_array(st, shape, it.arr_elems(st, v))
    return v


def arr_setitem(it, a, k, v, st, node=None):
    if isinstance(k, (Ref, ArrRef)):
        # boolean mask store
        m = as_nested(it, k, st, node)
        if m is not None and m[0] == a.shape and all(isinstance(x, (bool, Node)) for x in m[1]):
            old = it.arr_elems(st, a)
            if isinstance(v, (ArrRef, Ref, Tup)):
                it.unsupported("masked store of an array", node)
            it.store_arr(st, a, [ite(c, v, o) for c, o in zip(m[1], old)], node)
            return None
    r = arr_select(it, a, k, st, node)
    if r is None:
        it.unsupported("array store index", node)
    shape, idx = r
    if isinstance(v, (ArrRef, Ref, Tup)) or (isinstance(v, Node) and any(isinstance(l, (ArrRef, Ref, Tup)) for l, _ in G.leaves(v))):
        s = as_nested(it, v, st, node)
        if s is None:
            it.unsupported("array store value", node)
        sh = bshape(s[0], shape)
        if sh is None or size(sh) != len(idx):
            it.raise_(st, "ValueError", f"could not broadcast {s[0]} into {shape}", node)
        vals = bget(s[0], s[1], shape) if len(shape) >= len(s[0]) else s[1]
    elif isinstance(v, Opq) and shape != ():
        vals = [Opq("item", (v, i)) for i in range(len(idx))]
    else:
        vals = [v] * len(idx)
    vals = [T.const(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in vals]
    it.store_arr(st, ArrRef(a.loc, (len(idx),), idx), vals, node)
    return None


def shape_arg(it, v, st, node):
    v = it.as_index(v)
    if isinstance(v, int):
        return (v,)
    items = it.try_iterate(v, st, node)
    if items is None:
        return None
    items = [it.as_index(x) for x in items]
    if all(isinstance(x, int) for x in items):
        return tuple(items)
    return None


def reduce_axis(it, st, node, v, axis, fn):
    r = as_nested(it, v, st, node)
    if r is None:
        return None
    sh, el = r
    if axis is None:
        return fn(el)
    axis = it.as_index(axis)
    if axis < 0:
        axis += len(sh)
    outer = size(sh[:axis])
    n = sh[axis]
    inner = size(sh[axis + 1:])
    out = []
    for o in range(outer):
        for i in range(inner):
            out.append(fn([el[(o * n + k) * inner + i] for k in range(n)]))
    nsh = sh[:axis] + sh[axis + 1:]
    if nsh == ():
        return out[0]
    return it.new_array(st, nsh, out)


def vsum(it, xs):
    s = T.ZERO if not xs or not all(isinstance(x, int) for x in xs) else 0
    for x in xs:
        s = add(it, s, lift(lambda v: int(v) if isinstance(v, bool) else v, x))
    return s


def norm(it, st, node, v, axis=None):
    def f(el):
        s = T.ZERO
        for x in el:
            s = add(it, s, mul(it, x, x))
        return un(it, "sqrt", s)
    return reduce_axis(it, st, node, v, axis, f)


def call_ext(it, path, args, kw, st, node=None):
    path = canon(path)
    top, _, name = path.rpartition(".")
    f = it.ext.get(path) or EXT.get(path)
    if f is not None:
        r = f(it, st, node, args, kw)
        if r is not NotImplemented:
            return r
    if top in ("numpy", "math", "cmath", "numba.np"):
        r = np_call(it, name, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if top.startswith("sympy") or path.startswith("sympy."):
        r = sym_call(it, name, args, kw, st, node)
        if r is not NotImplemented:
            return r
    o = Opq("call", (Ext(path),) + tuple(args) + tuple(x for k in sorted(kw) for x in (k, kw[k])))
    it.event(st, "call", Ext(path), tuple(args), dict(kw))
    return o


def np_call(it, name, args, kw, st, node):
    if name in UN and len(args) >= 1:
        x = args[0]
        r = elementwise(it, st, node, lambda v: un(it, name, v, st, node), x)
        if "out" in kw:
            return NotImplemented
        return r
    if name in BIN and len(args) >= 2:
        return elementwise(it, st, node, lambda a, b: bi(it, name, a, b), args[0], args[1])
    if name in OPN and len(args) >= 2:
        return elementwise(it, st, node, lambda a, b: it.binop(OPN[name], a, b, st, node), args[0], args[1])
    if name in CMPN and len(args) >= 2:
        return elementwise(it, st, node, lambda a, b: it.compare(CMPN[name], a, b, st, node), args[0], args[1])
    f = NPF.get(name)
    if f is not None:
        return f(it, st, node, args, kw)
    return NotImplemented


def _arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def f_array(it, st, node, args, kw):
    v = args[0] if args else kw.get("object")
    r = to_array(it, v, st, node)
    if r is None:
        if isinstance(v, Opq):
            return v
        # arrays built from unknown histories stay uninterpreted
        return Opq("array", (snapshot(it, st, v),))
    el = it.arr_elems(st, r)
    if kw.get("dtype") is not None and any(isinstance(x, (int, bool)) for x in el):
        d = kw["dtype"]
        if isinstance(d, Builtin) and d.name == "float" or isinstance(d, Ext) and "float" in d.path:
            it.store_arr(st, r, [T.const(int(x)) if isinstance(x, (int, bool)) else x for x in el])
    if r.shape == ():
        return el[0]
    return r


def contents_of(it, st, v):
    """('seq', shape, elements) of a container of numbers, else the value"""
    if isinstance(v, (ArrRef, Ref, Tup)):
        r = as_nested(it, v, st)
        if r is not None:
            return ("seq", r[0], list(r[1]))
    return v


def snapshot(it, st, v, depth=0):
    """immutable description of a (possibly partly unknown) container"""
    if isinstance(v, Ref):
        c = st.heap[v.loc]
        if isinstance(c, ListC):
            return Opq("list", (c.base.label if c.base else "",) + tuple(snapshot(it, st, x, depth + 1) for x in c.items))
        if isinstance(c, DictC):
            return Opq("dict", tuple(x for k, w in c.items.values() for x in (k, snapshot(it, st, w, depth + 1))))
        return v
    if isinstance(v, ArrRef):
        return Opq("arr", (str(v.shape),) + tuple(it.arr_elems(st, v)))
    if isinstance(v, Tup):
        return Tup(snapshot(it, st, x, depth + 1) for x in v.items)
    if isinstance(v, Node):
        return lift(lambda x: snapshot(it, st, x, depth + 1), v)
    return v


def f_asarray(it, st, node, args, kw):
    if isinstance(args[0], ArrRef):
        return args[0]
    return f_array(it, st, node, args, kw)


def f_fill(val):
    def g(it, st, node, args, kw):
        sh = shape_arg(it, _arg(args, kw, 0, "shape"), st, node)
        if sh is None:
            return Opq("filled", (args[0],))
        return it.new_array(st, sh, [val()] * size(sh))
    return g


def f_fill_like(val):
    def g(it, st, node, args, kw):
        r = as_nested(it, args[0], st, node)
        if r is None:
            return Opq("filled_like", tuple(args))
        if r[0] == ():
            return val()
        return it.new_array(st, r[0], [val()] * len(r[1]))
    return g


def f_full(it, st, node, args, kw):
    sh = shape_arg(it, args[0], st, node)
    v = _arg(args, kw, 1, "fill_value")
    if sh is None:
        return Opq("full", tuple(args))
    return it.new_array(st, sh, [v] * size(sh))


def f_eye(it, st, node, args, kw):
    n = it.as_index(args[0])
    return it.new_array(st, (n, n), [T.ONE if i == j else T.ZERO for i in range(n) for j in range(n)])


def f_diag(it, st, node, args, kw):
    sh, el = as_nested(it, args[0], st, node)
    if len(sh) == 1:
        n = sh[0]
        return it.new_array(st, (n, n), [el[i] if i == j else T.ZERO for i in range(n) for j in range(n)])
    return it.new_array(st, (min(sh),), [el[i * sh[1] + i] for i in range(min(sh))])


def f_concat(it, st, node, args, kw):
    items = it.try_iterate(args[0], st, node)
    if items is None:
        return Opq("concatenate", tuple(snapshot(it, st, a) for a in args))
    axis = it.as_index(_arg(args, kw, 1, "axis", 0))
    rs = [as_nested(it, x, st, node) for x in items]
    if any(r is None for r in rs):
        return Opq("concatenate", tuple(snapshot(it, st, a) for a in items))
    if any(r[0] == () for r in rs):
        it.raise_(st, "ValueError", "zero-dimensional arrays cannot be concatenated", node)
    nd = len(rs[0][0])
    if axis is not None and axis < 0:
        axis += nd
    if axis == 0:
        el = [e for r in rs for e in r[1]]
        sh = (sum(r[0][0] for r in rs),) + tuple(rs[0][0][1:])
        return it.new_array(st, sh, el)
    if nd == 2 and axis == 1:
        rows = rs[0][0][0]
        el = []
        for i in range(rows):
            for sh, e in rs:
                el += e[i * sh[1]:(i + 1) * sh[1]]
        return it.new_array(st, (rows, sum(r[0][1] for r in rs)), el)
    return Opq("concatenate", tuple(snapshot(it, st, a) for a in items))


def f_hstack(it, st, node, args, kw):
    items = it.try_iterate(args[0], st, node)
    if items is None:
        return Opq("hstack", tuple(args))
    rs = [as_nested(it, x, st, node) for x in items]
    if any(r is None for r in rs):
        return Opq("hstack", tuple(args))
    if all(len(r[0]) <= 1 for r in rs):
        el = [e for r in rs for e in r[1]]
        return it.new_array(st, (len(el),), el)
    return f_concat(it, st, node, [args[0]], {"axis": 1})


def f_vstack(it, st, node, args, kw):
    items = it.try_iterate(args[0], st, node)
    if items is None:
        return Opq("vstack", tuple(args))
    rs = [as_nested(it, x, st, node) for x in items]
    if any(r is None for r in rs):
        return Opq("vstack", tuple(args))
    el = [e for r in rs for e in r[1]]
    n = rs[0][0][-1] if rs[0][0] else 1
    return it.new_array(st, (len(el) // n, n), el)


def f_stack(it, st, node, args, kw):
    items = it.try_iterate(args[0], st, node)
    axis = it.as_index(_arg(args, kw, 1, "axis", 0))
    if items is None:
        return Opq("stack", tuple(args))
    rs = [as_nested(it, x, st, node) for x in items]
    if any(r is None or len(r[0]) > 1 for r in rs):
        return Opq("stack", tuple(snapshot(it, st, a) for a in items))
    n = len(rs[0][1])
    if axis in (0,):
        return it.new_array(st, (len(rs), n), [e for r in rs for e in r[1]])
    return it.new_array(st, (n, len(rs)), [r[1][i] for i in range(n) for r in rs])


def f_dot(it, st, node, args, kw):
    return matmul(it, args[0], args[1], st, node)


def f_vdot(it, st, node, args, kw):
    ra, rb = as_nested(it, args[0], st, node), as_nested(it, args[1], st, node)
    s = T.ZERO
    for x, y in zip(ra[1], rb[1]):
        s = add(it, s, mul(it, x, y))
    return s


def f_cross(it, st, node, args, kw):
    ra, rb = as_nested(it, args[0], st, node), as_nested(it, args[1], st, node)
    if ra is None or rb is None or ra[0] != (3,) or rb[0] != (3,):
        return Opq("cross", tuple(args))
    a, b = ra[1], rb[1]
    sub = lambda x, y: it.binop("Sub", x, y, st, node)
    return it.new_array(st, (3,), [sub(mul(it, a[1], b[2]), mul(it, a[2], b[1])),
                                   sub(mul(it, a[2], b[0]), mul(it, a[0], b[2])),
                                   sub(mul(it, a[0], b[1]), mul(it, a[1], b[0]))])


def f_outer(it, st, node, args, kw):
    ra, rb = as_nested(it, args[0], st, node), as_nested(it, args[1], st, node)
    if ra is None or rb is None:
        return Opq("outer", tuple(args))
    return it.new_array(st, (len(ra[1]), len(rb[1])), [mul(it, x, y) for x in ra[1] for y in rb[1]])


def f_norm(it, st, node, args, kw):
    o = _arg(args, kw, 1, "ord")
    if o is not None and o != 2:
        return Opq("norm", tuple(args) + (o,))
    r = norm(it, st, node, args[0], kw.get("axis"))
    return Opq("norm", (snapshot(it, st, args[0]),)) if r is None else r


def f_reduce(fn, name):
    def g(it, st, node, args, kw):
        r = reduce_axis(it, st, node, args[0], _arg(args, kw, 1, "axis"), lambda el: fn(it, el, st, node))
        return Opq(name, (snapshot(it, st, args[0]),)) if r is None else r
    return g


def _fold(op):
    def g(it, el, st, node):
        r = el[0]
        for x in el[1:]:
            r = op(it, r, x)
        return r
    return g


def _all(it, el, st, node):
    r = True
    for x in el:
        r = b_and(r, it.truth(x, st, node))
    return r


def _any(it, el, st, node):
    r = False
    for x in el:
        r = b_or(r, it.truth(x, st, node))
    return r


def f_where(it, st, node, args, kw):
    if len(args) == 1:
        return NotImplemented
    return elementwise(it, st, node, lambda c, a, b: ite(it.truth(c, st, node), a, b), *args)


def f_clip(it, st, node, args, kw):
    lo = _arg(args, kw, 1, "a_min", kw.get("min"))
    hi = _arg(args, kw, 2, "a_max", kw.get("max"))
    if lo is None and hi is None:
        return args[0]
    if lo is None:
        return elementwise(it, st, node, lambda x, h: clip(it, x, None, h), args[0], hi)
    if hi is None:
        return elementwise(it, st, node, lambda x, l: clip(it, x, l, None), args[0], lo)
    return elementwise(it, st, node, lambda x, l, h: clip(it, x, l, h), args[0], lo, hi)


def f_meshgrid(it, st, node, args, kw):
    if len(args) != 2:
        return Opq("meshgrid", tuple(args))
    ra, rb = as_nested(it, args[0], st, node), as_nested(it, args[1], st, node)
    if ra is None or rb is None:
        return Opq("meshgrid", tuple(args))
    a, b = ra[1], rb[1]
    if kw.get("indexing", "xy") == "ij":
        sh, x, y = (len(a), len(b)), [u for u in a for _ in b], [v for _ in a for v in b]
    else:
        sh, x, y = (len(b), len(a)), [u for _ in b for u in a], [v for v in b for _ in a]
    return it.new_list(st, [it.new_array(st, sh, x), it.new_array(st, sh, y)])


def grid(it, st, name, k, node):
    """numpy.mgrid with numbers of points (complex steps)"""
    ks = list(k.items) if isinstance(k, Tup) else [k]
    axes = []
    for x in ks:
        if not (hasattr(x, "a") and isinstance(x.c, Opq) and x.c.name == "complex"):
            return None
        n = complex(x.c.args[0].strip("()"))
        if n.real or n.imag != int(n.imag) or n.imag > 100:
            return None
        axes.append(it.arr_elems(st, f_linspace(it, st, node, [T.ZERO if x.a is None else x.a, x.b, int(n.imag)], {})))
    if name.endswith("ogrid") or len(axes) > 2:
        return None
    if len(axes) == 1:
        return it.new_array(st, (len(axes[0]),), axes[0])
    m, n = len(axes[0]), len(axes[1])
    return Tup([it.new_array(st, (m, n), [axes[0][i] for i in range(m) for _ in range(n)]), it.new_array(st, (m, n), [axes[1][j] for _ in range(m) for j in range(n)])])


def f_linspace(it, st, node, args, kw):
    a, b = args[0], args[1]
    n = it.as_index(_arg(args, kw, 2, "num", 50))
    ep = _arg(args, kw, 3, "endpoint", True)
    if not isinstance(n, int) or n > 600:
        return Opq("linspace", (a, b, n, ep))
    d = (n - 1) if ep is True else n
    step = it.binop("Sub", b, a, st, node)
    out = []
    for i in range(n):
        out.append(add(it, a, mul(it, step, T.const(Fr(i, d)))) if d else add(it, a, T.ZERO))
    return it.new_array(st, (n,), out)


def f_arange(it, st, node, args, kw):
    a = [it.as_index(x) for x in args]
    if all(isinstance(x, int) for x in a):
        r = list(range(*a))
        return it.new_array(st, (len(r),), r)
    c = [x.const() if isinstance(x, Poly) else (Fr(x) if isinstance(x, int) else None) for x in a]
    if all(x is not None for x in c):
        lo, hi, s = (Fr(0), c[0], Fr(1)) if len(c) == 1 else (c[0], c[1], Fr(1)) if len(c) == 2 else tuple(c)
        out = []
        x = lo
        while (x < hi if s > 0 else x > hi) and len(out) < 2000:
            out.append(T.const(x))
            x += s
        return it.new_array(st, (len(out),), out)
    return Opq("arange", tuple(args))


def f_isnan(it, st, node, args, kw):
    return elementwise(it, st, node, lambda x: lift(isnan_leaf, x), args[0])


def f_isfinite(it, st, node, args, kw):
    return elementwise(it, st, node, lambda x: lift(lambda v: b_not(isnan_leaf(v)), x), args[0])


def f_array_equal(it, st, node, args, kw):
    a, b = as_nested(it, args[0], st), as_nested(it, args[1], st)
    if a is None or b is None:
        return G.boolvar(("array_equal", vkey(snapshot(it, st, args[0])), vkey(snapshot(it, st, args[1]))))
    if a[0] != b[0]:
        return False
    r = True
    for x, y in zip(a[1], b[1]):
        r = b_and(r, it.compare("Eq", x, y, st, node))
    return r


def f_transpose(it, st, node, args, kw):
    v = args[0]
    if not isinstance(v, ArrRef):
        v = to_array(it, v, st, node)
    if v is None:
        return Opq("transpose", tuple(args))
    return transpose(v)


def transpose(v):
    if len(v.shape) < 2:
        return v
    if len(v.shape) == 2:
        r, c = v.shape
        return ArrRef(v.loc, (c, r), [v.idx[i * c + j] for j in range(c) for i in range(r)])
    raise Unsupported("transpose of 3-d array")


def same_type(it, st, v):
    """fresh array with the elements and the element type of v"""
    r = it.new_array(st, v.shape, it.arr_elems(st, v))
    c = st.heap[v.loc]
    if isinstance(c, ArrC) and c.dt is not None:
        st.heap[r.loc] = ArrC(st.heap[r.loc].elems, c.dt)
    return r


def f_copy(it, st, node, args, kw):
    v = args[0]
    if isinstance(v, ArrRef):
        return same_type(it, st, v)
    return f_array(it, st, node, args, kw)


def f_atleast_1d(it, st, node, args, kw):
    r = as_nested(it, args[0], st, node)
    if r is None:
        return Opq("atleast_1d", tuple(args))
    return it.new_array(st, r[0] or (1,), r[1])


def f_cumsum(it, st, node, args, kw):
    r = as_nested(it, args[0], st, node)
    if r is None:
        return Opq("cumsum", (snapshot(it, st, args[0]),))
    out = []
    s = T.ZERO
    for x in r[1]:
        s = add(it, s, x)
        out.append(s)
    return it.new_array(st, (len(out),), out)


def f_diff(it, st, node, args, kw):
    r = as_nested(it, args[0], st, node)
    if r is None:
        return Opq("diff", (snapshot(it, st, args[0]),))
    e = r[1]
    return it.new_array(st, (len(e) - 1,), [it.binop("Sub", e[i + 1], e[i], st, node) for i in range(len(e) - 1)])


def _argext(s):
    def g(it, st, node, args, kw):
        r = as_nested(it, args[0], st, node)
        if r is None:
            return Opq("argext", (snapshot(it, st, args[0]),))
        bi_, bv = 0, r[1][0]
        for i, x in enumerate(r[1][1:], 1):
            better = it.compare("Gt" if s > 0 else "Lt", x, bv, st, node)
            bi_ = ite(better, i, bi_)
            bv = ite(better, x, bv)
        return bi_
    return g


def f_append(it, st, node, args, kw):
    ra, rb = as_nested(it, args[0], st), as_nested(it, args[1], st)
    if ra is None or rb is None or kw.get("axis") is not None or len(args) > 2:
        return Opq("npappend", tuple(snapshot(it, st, a) for a in args))
    el = list(ra[1]) + list(rb[1])
    return it.new_array(st, (len(el),), el)


def f_einsum(it, st, node, args, kw):
    spec = args[0]
    if isinstance(spec, str) and "->" in spec:
        ins, out = spec.replace(" ", "").split("->")
        ins = ins.split(",")
        rs = [as_nested(it, a, st, node) for a in args[1:]]
        if any(r is None for r in rs):
            return NotImplemented
        dims = {}
        for i, r in zip(ins, rs):
            for c, n in zip(i, r[0]):
                dims[c] = n
        letters = list(dict.fromkeys("".join(ins)))
        summed = [c for c in letters if c not in out]
        import itertools
        res = []
        for o in itertools.product(*[range(dims[c]) for c in out]):
            env = dict(zip(out, o))
            s = T.ZERO
            for q in itertools.product(*[range(dims[c]) for c in summed]):
                env.update(zip(summed, q))
                t = T.ONE
                for i, r in zip(ins, rs):
                    off = 0
                    for c, n in zip(i, r[0]):
                        off = off * n + env[c]
                    t = mul(it, t, r[1][off])
                s = add(it, s, t)
            res.append(s)
        if out == "":
            return res[0]
        return it.new_array(st, tuple(dims[c] for c in out), res)
    return NotImplemented


NPF = {
    "array": f_array, "asarray": f_asarray, "ascontiguousarray": f_asarray, "asfarray": f_asarray, "zeros": f_fill(lambda: T.ZERO),
    "empty": f_fill(lambda: UNBOUND), "ones": f_fill(lambda: T.ONE), "zeros_like": f_fill_like(lambda: T.ZERO),
    "ones_like": f_fill_like(lambda: T.ONE), "empty_like": f_fill_like(lambda: UNBOUND), "full": f_full, "eye": f_eye, "identity": f_eye,
    "full_like": lambda it, st, node, args, kw: f_fill_like(lambda: args[1])(it, st, node, args[:1], kw),
    "diag": f_diag, "concatenate": f_concat, "hstack": f_hstack, "r_": f_hstack, "vstack": f_vstack, "stack": f_stack,
    "column_stack": lambda it, st, node, args, kw: f_stack(it, st, node, args, {"axis": 1}),
    "row_stack": f_vstack, "dot": f_dot, "matmul": f_dot, "inner": f_dot, "vdot": f_vdot, "cross": f_cross, "outer": f_outer,
    "sum": f_reduce(lambda it, el, st, n: vsum(it, el), "sum"), "fsum": f_reduce(lambda it, el, st, n: vsum(it, el), "sum"),
    "nansum": f_reduce(lambda it, el, st, n: vsum(it, el), "sum"),
    "mean": f_reduce(lambda it, el, st, n: it.binop("Div", vsum(it, el), len(el), st, n), "mean"),
    "prod": f_reduce(_fold(lambda it, a, b: mul(it, a, b)), "prod"),
    "max": f_reduce(_fold(vmax), "max"), "amax": f_reduce(_fold(vmax), "max"), "min": f_reduce(_fold(vmin), "min"),
    "amin": f_reduce(_fold(vmin), "min"), "nanmax": f_reduce(_fold(vmax), "max"), "nanmin": f_reduce(_fold(vmin), "min"),
    "all": f_reduce(_all, "all"), "any": f_reduce(_any, "any"), "alltrue": f_reduce(_all, "all"),
    "maximum": lambda it, st, node, args, kw: elementwise(it, st, node, lambda a, b: vmax(it, a, b), *args[:2]),
    "minimum": lambda it, st, node, args, kw: elementwise(it, st, node, lambda a, b: vmin(it, a, b), *args[:2]),
    "fmax": lambda it, st, node, args, kw: elementwise(it, st, node, lambda a, b: vmax(it, a, b), *args[:2]),
    "fmin": lambda it, st, node, args, kw: elementwise(it, st, node, lambda a, b: vmin(it, a, b), *args[:2]),
    "sign": lambda it, st, node, args, kw: elementwise(it, st, node, lambda x: lift(lambda v: sgn(it, v), x), args[0]),
    "where": f_where, "clip": f_clip, "linspace": f_linspace, "meshgrid": f_meshgrid, "arange": f_arange, "isnan": f_isnan, "isfinite": f_isfinite,
    "array_equal": f_array_equal, "transpose": f_transpose, "copy": f_copy, "atleast_1d": f_atleast_1d, "ravel": lambda it, st, node, args, kw:
    flatten(it, st, args[0]), "cumsum": f_cumsum, "diff": f_diff, "argmax": _argext(1), "argmin": _argext(-1), "append": f_append,
    "count_nonzero": f_reduce(lambda it, el, st, n: vsum(it, [lift(lambda b: 1 if b else 0, it.truth(x, st, n)) for x in el]), "count"),
    "logical_and": lambda it, st, node, args, kw: elementwise(it, st, node, lambda a, b: b_and(it.truth(a, st), it.truth(b, st)), *args[:2]),
    "logical_or": lambda it, st, node, args, kw: elementwise(it, st, node, lambda a, b: b_or(it.truth(a, st), it.truth(b, st)), *args[:2]),
    "logical_not": lambda it, st, node, args, kw: elementwise(it, st, node, lambda a: b_not(it.truth(a, st)), args[0]),
    "einsum": f_einsum, "reshape": lambda it, st, node, args, kw: reshape(it, st, args[0], args[1], node),
    "bool_": lambda it, st, node, args, kw: it.truth(args[0], st, node),
    "sincos": lambda *a: NotImplemented, "isclose": lambda it, st, node, args, kw: NotImplemented,
    "int64": lambda it, st, node, args, kw: args[0], "errstate": lambda it, st, node, args, kw: Opq("errstate"),
    "seterr": lambda it, st, node, args, kw: Opq("seterr"),
    "size": lambda it, st, node, args, kw: len(as_nested(it, args[0], st)[1]) if as_nested(it, args[0], st) else NotImplemented,
    "shape": lambda it, st, node, args, kw: Tup(as_nested(it, args[0], st)[0]) if as_nested(it, args[0], st) else NotImplemented,
    "flip": lambda it, st, node, args, kw: f_flip(it, st, args[0]),
}


def f_flip(it, st, v):
    if not isinstance(v, ArrRef):
        v = to_array(it, v, st)
    if isinstance(v, ArrRef) and len(v.shape) == 1:
        return ArrRef(v.loc, v.shape, v.idx[::-1])
    return NotImplemented


def flatten(it, st, v):
    r = as_nested(it, v, st)
    if r is None:
        return Opq("flatten", (v,))
    return it.new_array(st, (len(r[1]),), r[1])


def reshape(it, st, a, sh, node=None):
    if not isinstance(a, ArrRef):
        a = to_array(it, a, st, node)
        if a is None:
            return Opq("reshape", ())
    s = shape_arg(it, sh, st, node)
    if s is None:
        it.unsupported("reshape", node)
    if -1 in s:
        k = 1
        for x in s:
            if x != -1:
                k *= x
        s = tuple(len(a.idx) // k if x == -1 else x for x in s)
    return ArrRef(a.loc, s, a.idx)


# ------------------------------------------------------------------- sympy
def f_symbols(it, st, node, args, kw):
    s = args[0]
    if isinstance(s, str):
        names = s.replace(",", " ").split()
        out = [T.sym("sympy:" + n, pos=bool(kw.get("positive") is True)) for n in names]
        if len(out) == 1 and "," not in s:
            return out[0]
        return Tup(out)
    items = it.try_iterate(s, st, node)
    return Tup([f_symbols(it, st, node, [x], kw) for x in items])


def nested(it, st, v):
    """nested python containers -> nested tuples of Poly"""
    if isinstance(v, (Ref, ArrRef, Tup)):
        return tuple(nested(it, st, x) for x in it.iterate(v, st))
    if isinstance(v, Node):
        raise Unsupported("conditional symbolic expression")
    if isinstance(v, LamFn):
        raise Unsupported("lambdify of a function")
    return it.scalar(v)


def f_lambdify(it, st, node, args, kw):
    p = args[0] if args else kw["args"]
    e = args[1] if len(args) > 1 else kw["expr"]

    def params(v):
        if isinstance(v, (Ref, ArrRef, Tup)):
            return tuple(params(x) for x in it.iterate(v, st))
        a = T.atom_of(v) if isinstance(v, Poly) else None
        if a is None:
            it.unsupported("lambdify parameter is not a symbol", node)
        return a.id

    return LamFn(params(p) if isinstance(p, (Ref, ArrRef, Tup)) else (params(p),), nested(it, st, e))


def f_diffsym(it, st, node, args, kw):
    e, x = it.scalar(args[0]), it.scalar(args[1])
    if len(args) > 2:
        return NotImplemented
    return diff_atom(e, x)


def diff_atom(e, x):
    """partial derivative kept as a formal operator applied to the value number"""
    if T.sym_id(x) not in T.all_atoms(e):
        return T.ZERO
    return T.app("D", e, x)


def _diff_rebuild(e, x):
    if T.atom_of(x) is None:
        return T.app("D", e, x)
    return diff_atom(e, x)


T._FN["D"] = _diff_rebuild


def sym_call(it, name, args, kw, st, node):
    if name == "Matrix":
        return to_array(it, args[0], st, node)
    f = {"symbols": f_symbols, "lambdify": f_lambdify, "diff": f_diffsym}.get(name)
    if f is not None:
        return f(it, st, node, args, kw)
    if name in ("Symbol", "Dummy"):
        return T.sym("sympy:" + args[0])
    if name in UN:
        return un(it, name, args[0], st, node)
    if name in BIN:
        return bi(it, name, args[0], args[1])
    if name in ("simplify", "expand", "factor", "nsimplify", "sympify", "together", "trigsimp", "N", "cancel"):
        return args[0]
    if name in ("Rational", "Float", "Integer"):
        if len(args) == 2:
            return it.binop("Div", args[0], args[1], st, node)
        return it.scalar(args[0]) if not isinstance(args[0], str) else T.const(Fr(args[0]))
    if name in ("Max", "Min"):
        r = args[0]
        for x in args[1:]:
            r = (vmax if name == "Max" else vmin)(it, r, x)
        return r
    if name == "sign":
        return sgn(it, args[0])
    if name == "Add":
        return vsum(it, args)
    return NotImplemented


# ------------------------------------------------------- selected externals
def f_partial(it, st, node, args, kw):
    return Partial(args[0], args[1:], kw)


def f_methodtype(it, st, node, args, kw):
    return Bound(args[0], args[1])


def f_deepcopy(it, st, node, args, kw):
    return deep(it, st, args[0], {})


def deep(it, st, v, memo):
    if isinstance(v, ArrRef):
        return same_type(it, st, v)
    if isinstance(v, Ref):
        if v.loc in memo:
            return memo[v.loc]
        c = st.heap[v.loc]
        if isinstance(c, ListC):
            return Ref(it.alloc(st, ListC((deep(it, st, x, memo) for x in c.items), c.base)))
        if isinstance(c, DictC):
            return Ref(it.alloc(st, DictC({k: (a, deep(it, st, b, memo)) for k, (a, b) in c.items.items()})))
        if isinstance(c, InstC):
            r = Ref(it.alloc(st, c))
            memo[v.loc] = r
            st.heap[r.loc] = InstC(c.cls, {k: deep(it, st, x, memo) for k, x in c.attrs.items()})
            return r
    if isinstance(v, Tup):
        return Tup(deep(it, st, x, memo) for x in v.items)
    if isinstance(v, Node):
        return lift(lambda x: deep(it, st, x, memo), v)
    return v


def f_shallow(it, st, node, args, kw):
    v = args[0]
    if isinstance(v, ArrRef):
        return it.new_array(st, v.shape, it.arr_elems(st, v))
    if isinstance(v, Ref):
        return Ref(it.alloc(st, st.heap[v.loc]))
    return v


def f_identity_iter(it, st, node, args, kw):
    return args[0] if args else kw.get("iterable", Opq("tqdm"))


def f_reduce_ft(it, st, node, args, kw):
    items = it.iterate(args[1], st, node)
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = it.call(args[0], [acc, x], {}, st, node)
    return acc


def f_identity_deco(it, st, node, args, kw):
    if args and isinstance(args[0], (Func, Bound, Node)):
        if isinstance(args[0], Func):
            it.compiled.add(id(args[0].node))
        return args[0]
    return Opq("decorator")


EXT = {
    "functools.partial": f_partial, "types.MethodType": f_methodtype, "copy.deepcopy": f_deepcopy, "copy.copy": f_shallow,
    "tqdm.tqdm": f_identity_iter, "tqdm.auto.tqdm": f_identity_iter, "functools.reduce": f_reduce_ft,
    "numpy.linalg.norm": f_norm, "numba.njit": f_identity_deco, "numba.jit": f_identity_deco,
    "itertools.chain": lambda it, st, node, args, kw: Tup([x for a in args for x in it.iterate(a, st, node)]),
    "itertools.product": lambda it, st, node, args, kw: Tup(Tup(c) for c in __import__("itertools").product(*[it.iterate(a, st, node) for a in args])),
    "math.sumprod": f_vdot, "math.dist": lambda *a: NotImplemented,
    "operator.itemgetter": lambda *a: NotImplemented,
    "numpy.linalg.multi_dot": lambda *a: NotImplemented,
}


# ------------------------------------------------------------------ builtins
def is_type(it, st, x, t):
    """isinstance on leaves: True / False / None(unknown)"""
    if isinstance(t, Tup):
        rs = [is_type(it, st, x, u) for u in t.items]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if isinstance(t, Builtin):
        n = t.name
        if n == "float":
            return isinstance(x, Poly) or x is NAN
        if n == "int":
            return isinstance(x, int)
        if n == "bool":
            return isinstance(x, bool)
        if n == "str":
            return isinstance(x, str)
        if n == "tuple":
            return isinstance(x, Tup)
        if n == "list":
            return isinstance(x, Ref) and isinstance(st.heap[x.loc], ListC)
        if n == "dict":
            return isinstance(x, Ref) and isinstance(st.heap[x.loc], DictC)
        return None
    if isinstance(t, Cls):
        if isinstance(x, Ref) and isinstance(st.heap[x.loc], InstC):
            c = st.heap[x.loc].cls
            while isinstance(c, Cls):
                if c is t:
                    return True
                c = next((b for b in c.bases if isinstance(b, Cls)), None)
        return False
    if isinstance(t, Ext):
        p = t.path
        if p in ("numpy.floating", "numpy.float64", "numpy.float32", "numbers.Real", "numbers.Number", "numpy.number"):
            if isinstance(x, Poly) or x is NAN:
                return True
            if isinstance(x, int) and p.startswith("numbers"):
                return True
            return None if isinstance(x, Opq) else False
        if p in ("numpy.integer", "numbers.Integral"):
            return isinstance(x, int) if p.startswith("numbers") else False
        if p == "numpy.ndarray":
            return isinstance(x, ArrRef)
        if p in ("collections.abc.Callable", "typing.Callable"):
            return callable_leaf(it, st, x)
    return None


def callable_leaf(it, st, x):
    if isinstance(x, (Func, Bound, Cls, Ext, Builtin, Method, OpaqueFn, LamFn, Partial)):
        return True
    if isinstance(x, Opq):
        return None
    if isinstance(x, Ref) and isinstance(st.heap[x.loc], InstC):
        c = st.heap[x.loc].cls
        return isinstance(c, Cls) and c.lookup("__call__") is not None
    return False


def call_builtin(it, name, args, kw, st, node=None):
    f = BUI.get(name)
    if f is not None:
        r = f(it, st, node, args, kw)
        if r is not NotImplemented:
            return r
    from .interp import EXCEPTIONS
    if name in EXCEPTIONS:
        return Opq("exc", (name,))
    o = Opq("call", (Builtin(name),) + tuple(snapshot(it, st, a) for a in args) + tuple(x for k in sorted(kw) for x in (k, snapshot(it, st, kw[k]))))
    it.event(st, "call", Builtin(name), tuple(args), dict(kw))
    return o


def b_len(it, st, node, args, kw):
    def f(v):
        if isinstance(v, (Tup,)):
            return len(v.items)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, ArrRef):
            return v.shape[0]
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Node):
                return lift(lambda x: clen(x), c)
            return clen(c)
        return T.atom_poly(T.fn_atom("len", (v,)))

    def clen(c):
        if isinstance(c, ListC):
            if c.base is None:
                return len(c.items)
            n = c.base.lenv if c.base.lenv is not None else T.sym(f"number of earlier entries of {c.base.label}", nonneg=True)
            return n + T.const(len(c.items))
        if isinstance(c, DictC):
            return len(c.items)
        raise Unsupported("len of object")

    return lift(lambda v: Long(f(v)) if it.long and type(f(v)) is int and f(v) in it.long else f(v), args[0])


def b_minmax(s):
    def g(it, st, node, args, kw):
        key = kw.get("key")
        if len(args) == 1:
            items = it.try_iterate(args[0], st, node)
            if items is None:
                return Opq("max" if s > 0 else "min", (snapshot(it, st, args[0]),))
            if not items:
                if "default" in kw:
                    return kw["default"]
                it.raise_(st, "ValueError", "empty sequence", node)
        else:
            items = list(args)
        if key is None:
            big = [x for x in items if Long.big(x) is not None] if s < 0 and len(items) == 2 else []
            if big and any(isinstance(x, Long) for x in items):
                return Long(next(x for x in items if isinstance(x, Long)) - 1)      # the longer lists are cut
            r = items[0]
            for x in items[1:]:
                r = vmax(it, r, x) if s > 0 else vmin(it, r, x)
            return r
        r, rk = items[0], it.call(key, [items[0]], {}, st, node)
        for x in items[1:]:
            xk = it.call(key, [x], {}, st, node)
            better = it.truth(it.compare("Gt" if s > 0 else "Lt", xk, rk, st, node), st, node)
            r = ite(better, x, r)
            rk = ite(better, xk, rk)
        return r
    return g


def b_sum(it, st, node, args, kw):
    items = it.try_iterate(args[0], st, node)
    if items is None:
        return Opq("sum", (snapshot(it, st, args[0]),))
    acc = args[1] if len(args) > 1 else kw.get("start", 0)
    for x in items:
        acc = it.binop("Add", acc, lift(lambda v: int(v) if isinstance(v, bool) else v, x), st, node)
    return acc


def b_range(it, st, node, args, kw):
    a = [it.as_index(x) for x in args]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 5000:
            return Opq("range", tuple(a))
        return Tup(Long(i) for i in r) if any(isinstance(x, Long) for x in a) else Tup(r)
    for i, x in enumerate(a):
        if isinstance(x, Node):
            return it.case(x, st, lambda v, s: b_range(it, s, node, a[:i] + [v] + a[i + 1:], kw))
    return Opq("range", tuple(a))


def b_isinstance(it, st, node, args, kw):
    def f(x):
        r = is_type(it, st, x, args[1])
        if r is None:
            return G.boolvar(("isinstance", vkey(x), vkey(args[1])))
        return r
    return lift(f, args[0])


def b_float(it, st, node, args, kw):
    def f(x):
        if isinstance(x, bool):
            return T.const(int(x))
        if isinstance(x, int):
            return T.const(x)
        if isinstance(x, str):
            s = x.strip().lower()
            if s in ("nan",):
                return NAN
            if s in ("inf", "+inf", "infinity"):
                return T.INF
            if s in ("-inf",):
                return -T.INF
            return T.const(Fr(x))
        if isinstance(x, ArrRef) and len(x.idx) == 1:
            return it.arr_elems(st, x)[0]
        if isinstance(x, Opq):
            return it.scalar(x)
        return x
    return lift(f, args[0]) if args else T.ZERO


def b_int(it, st, node, args, kw):
    def f(x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Poly):
            c = x.const()
            if c is not None:
                return int(c)
            return T.app("int", x)
        if isinstance(x, str):
            return int(x)
        return Opq("int", (x,))
    return lift(f, args[0]) if args else 0


def b_list(it, st, node, args, kw):
    if not args:
        return it.new_list(st, [])
    items = it.try_iterate(args[0], st, node)
    if items is None:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListC):
            c = st.heap[v.loc]
            return Ref(it.alloc(st, ListC(c.items, c.base)))
        return Opq("list", (snapshot(it, st, v),))
    return it.new_list(st, items)


def b_tuple(it, st, node, args, kw):
    if not args:
        return Tup(())
    items = it.try_iterate(args[0], st, node)
    if items is None:
        return Opq("tuple", (snapshot(it, st, args[0]),))
    return Tup(items)


def b_dict(it, st, node, args, kw):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], DictC):
            d.update(st.heap[v.loc].items)
        else:
            for p in it.iterate(v, st, node):
                k, x = it.iterate(p, st, node)
                d[vkey(k)] = (k, x)
    for k, v in kw.items():
        d[vkey(k)] = (k, v)
    return Ref(it.alloc(st, DictC(d)))


def b_zip(it, st, node, args, kw):
    seqs = [it.try_iterate(a, st, node) for a in args]
    if any(s is None for s in seqs):
        return Opq("zip", tuple(snapshot(it, st, a) for a in args))
    return Tup(Tup(x) for x in zip(*seqs))


def b_enumerate(it, st, node, args, kw):
    s = it.try_iterate(args[0], st, node)
    if s is None:
        return Opq("enumerate", (snapshot(it, st, args[0]),))
    k = args[1] if len(args) > 1 else kw.get("start", 0)
    if len(s) in it.long and type(k) is int:
        return Tup(Tup((Long(i + k), x)) for i, x in enumerate(s))
    return Tup(Tup((i + k, x)) for i, x in enumerate(s))


def b_map(it, st, node, args, kw):
    seqs = [it.iterate(a, st, node) for a in args[1:]]
    return Tup([it.call(args[0], list(x), {}, st, node) for x in zip(*seqs)])


def b_filter(it, st, node, args, kw):
    out = []
    for x in it.iterate(args[1], st, node):
        c = it.truth(it.call(args[0], [x], {}, st, node), st, node)
        if c is True:
            out.append(x)
        elif c is not False:
            it.unsupported("filter not statically decided", node)
    return Tup(out)


def b_all(it, st, node, args, kw):
    return _all(it, it.iterate(args[0], st, node), st, node)


def b_any(it, st, node, args, kw):
    return _any(it, it.iterate(args[0], st, node), st, node)


def b_abs(it, st, node, args, kw):
    return elementwise(it, st, node, lambda v: un(it, "abs", v), args[0])


def b_getattr(it, st, node, args, kw):
    if isinstance(args[1], str):
        if len(args) > 2:
            o = args[0]
            if isinstance(o, Ref) and isinstance(st.heap[o.loc], InstC):
                c = st.heap[o.loc]
                if args[1] not in c.attrs and (not isinstance(c.cls, Cls) or c.cls.lookup(args[1]) is None):
                    return args[2]
        return it.getattr(args[0], args[1], st, node)
    return NotImplemented


def b_setattr(it, st, node, args, kw):
    if isinstance(args[1], str):
        it.setattr(args[0], args[1], args[2], st, node)
        return None
    return NotImplemented


def b_hasattr(it, st, node, args, kw):
    o = args[0]
    if isinstance(o, Ref) and isinstance(st.heap[o.loc], InstC):
        c = st.heap[o.loc]
        v = c.attrs.get(args[1])
        if v is UNBOUND:
            return False
        if isinstance(v, Node):
            return lift(lambda x: x is not UNBOUND, v)
        return args[1] in c.attrs or (isinstance(c.cls, Cls) and c.cls.lookup(args[1]) is not None)
    return NotImplemented


def b_callable(it, st, node, args, kw):
    def f(x):
        r = callable_leaf(it, st, x)
        return G.boolvar(("callable", vkey(x))) if r is None else r
    return lift(f, args[0])


def b_round(it, st, node, args, kw):
    if len(args) == 1:
        def f(x):
            if isinstance(x, int):
                return x
            if isinstance(x, Poly):
                c = x.const()
                if c is not None:
                    return round(c)
                return T.app("round", x)
            return Opq("round", (x,))
        return lift(f, args[0])
    return NotImplemented


def b_pow(it, st, node, args, kw):
    return it.binop("Pow", args[0], args[1], st, node)


def b_reversed(it, st, node, args, kw):
    return Tup(reversed(it.iterate(args[0], st, node)))


def b_sorted(it, st, node, args, kw):
    items = it.iterate(args[0], st, node)
    rev = kw.get("reverse", False)
    if all(isinstance(x, (int, str)) for x in items) and "key" not in kw:
        return it.new_list(st, sorted(items, reverse=rev is True))
    r = sort_network(it, st, node, items, kw.get("key"), rev)
    if r is not None:
        return it.new_list(st, r)
    return Opq("sorted", tuple(snapshot(it, st, x) for x in items))


def sort_network(it, st, node, items, key, rev):
    """stable sort of a few numbers by conditional exchanges"""
    if len(items) > 5 or not isinstance(rev, bool) or any(num_or_none(l) is None for x in items for l, _ in G.leaves(x)):
        return None
    xs = [(x if key is None else it.call(key, [x], {}, st, node), x) for x in items]
    for n in range(len(xs) - 1, 0, -1):
        for j in range(n):
            (ka, a), (kb, b) = xs[j], xs[j + 1]
            sw = it.truth(it.compare("Gt" if rev else "Lt", kb, ka, st, node), st, node)
            xs[j], xs[j + 1] = (ite(sw, kb, ka), ite(sw, b, a)), (ite(sw, ka, kb), ite(sw, a, b))
    return [x for _, x in xs]


def num_or_none(x):
    if isinstance(x, (Poly, int)) and not isinstance(x, bool):
        return x
    return None


def b_print(it, st, node, args, kw):
    it.event(st, "print", tuple(args))
    return None


def b_bool(it, st, node, args, kw):
    return it.truth(args[0], st, node) if args else False


def b_type(it, st, node, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], InstC):
        return st.heap[v.loc].cls
    if isinstance(v, Poly):
        return Builtin("float")
    for t in ("bool", "int", "str"):
        if type(v).__name__ == t:
            return Builtin(t)
    return NotImplemented


def b_slice(it, st, node, args, kw):
    if len(args) == 1:
        return SliceV(None, args[0], None)
    return SliceV(args[0], args[1], args[2] if len(args) > 2 else None)


def b_next(it, st, node, args, kw):
    s = it.try_iterate(args[0], st, node)
    if s:
        return s[0]
    if s is not None and len(args) > 1:
        return args[1]
    return NotImplemented


def b_str(it, st, node, args, kw):
    if len(args) == 1 and (isinstance(args[0], (str, int)) or args[0] is None):
        return str(args[0])
    return Opq("str", tuple(args))


def b_set(it, st, node, args, kw):
    return Tup(it.iterate(args[0], st, node)) if args else Tup(())


def b_divmod(it, st, node, args, kw):
    return Tup((it.binop("FloorDiv", args[0], args[1], st, node), it.binop("Mod", args[0], args[1], st, node)))


BUI = {"len": b_len, "max": b_minmax(1), "min": b_minmax(-1), "sum": b_sum, "range": b_range, "isinstance": b_isinstance, "float": b_float,
       "int": b_int, "list": b_list, "tuple": b_tuple, "dict": b_dict, "zip": b_zip, "enumerate": b_enumerate, "map": b_map, "filter": b_filter,
       "all": b_all, "any": b_any, "abs": b_abs, "getattr": b_getattr, "setattr": b_setattr, "hasattr": b_hasattr, "callable": b_callable,
       "round": b_round, "pow": b_pow, "reversed": b_reversed, "sorted": b_sorted, "print": b_print, "bool": b_bool, "type": b_type,
       "slice": b_slice, "next": b_next, "str": b_str, "repr": b_str, "format": b_str, "set": b_set, "frozenset": b_set, "iter": lambda it, st, n, a, k: a[0],
       "divmod": b_divmod, "super": lambda it, st, n, a, k: Opq("super", tuple(a[::-1]) if len(a) == 2 else ()),
       "id": lambda it, st, n, a, k: Opq("id", tuple(a)), "vars": lambda it, st, n, a, k: it.getattr(a[0], "__dict__", st, n)}


# --------------------------------------------------------- attributes/methods
def obj_attr(it, o, name, st, node=None):
    if isinstance(o, ArrRef):
        if name == "T":
            return transpose(o)
        if name == "shape":
            return Tup(Long(n) if n in it.long else n for n in o.shape)
        if name == "size":
            return Long(len(o.idx)) if len(o.idx) in it.long else len(o.idx)
        if name == "ndim":
            return len(o.shape)
        if name == "dtype":
            return Opq("dtype")
        if name == "flat":
            return ArrRef(o.loc, (len(o.idx),), o.idx)
        return Method(name, o)
    if isinstance(o, (Poly, int)) or o is NAN:
        if name == "real":
            return o
        if name == "T":
            return o
        if name == "shape":
            return Tup(())
        return Method(name, o)
    if isinstance(o, (Ref, Tup, str)):
        return Method(name, o)
    if isinstance(o, Builtin):
        return Builtin(o.name + "." + name)
    if isinstance(o, SliceV) or o is None or o is UNBOUND:
        it.raise_(st, "AttributeError", f"{o!r}.{name}", node)
    return Opq("attr", (o, name))


def call_method(it, m, args, kw, st, node=None):
    o, name = m.self_, m.name
    if isinstance(o, ArrRef):
        f = ARRM.get(name)
        if f is not None:
            return f(it, st, node, o, args, kw)
        if name in NPF or name in UN:
            return np_call(it, name, [o] + list(args), kw, st, node)
    if isinstance(o, Ref):
        c = st.heap[o.loc]
        if isinstance(c, Node):
            return it.case_content(o, c, st, lambda s: call_method(it, m, args, kw, s, node))
        if isinstance(c, ListC):
            return list_method(it, st, node, o, c, name, args, kw)
        if isinstance(c, DictC):
            return dict_method(it, st, node, o, c, name, args, kw)
    if isinstance(o, str):
        if name == "join":
            items = it.try_iterate(args[0], st, node)
            if items is not None and all(isinstance(x, str) for x in items):
                return o.join(items)
            return Opq("join", (o, Tup(items)) if items is not None else (o,))
        if all(isinstance(a, (str, int)) for a in args) and name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "title", "rstrip", "lstrip", "zfill", "ljust", "rjust", "count", "find"):
            return getattr(o, name)(*args)
        if name == "format" and all(isinstance(a, (str, int)) for a in list(args) + list(kw.values())):
            return o.format(*args, **kw)
        if name == "split" and all(isinstance(a, (str, int)) for a in args):
            return it.new_list(st, o.split(*args))
        return Opq("strmethod", (o, name) + tuple(args))
    if isinstance(o, Tup):
        if name == "index":
            for i, x in enumerate(o.items):
                if vkey(x) == vkey(args[0]):
                    return i
        if name == "count":
            return sum(1 for x in o.items if vkey(x) == vkey(args[0]))
        if name in ("union", "add", "issubset"):
            return Opq("set" + name, (o,) + tuple(args))
    if isinstance(o, (Poly, int)) or o is NAN:
        if name == "diff" and args:
            return diff_atom(it.scalar(o), it.scalar(args[0]))
        if name == "subs":
            if len(args) == 2:
                a = T.atom_of(args[0])
                return T.subst(o, {a.id: it.scalar(args[1])})
            items = it.iterate(args[0], st, node) if not (isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], DictC)) else \
                [Tup(kv) for kv in st.heap[args[0].loc].items.values()]
            mp = {T.atom_of(p.items[0]).id: it.scalar(p.items[1]) for p in items}
            return T.subst(o, mp)
        if name in ("copy", "item", "simplify", "expand", "evalf", "factor", "conjugate"):
            return o
        if name in ("any", "all"):
            return it.truth(o, st, node)
        if name in ("sum", "max", "min", "mean"):
            return o
        if name == "tolist":
            return o
        if name == "astype":
            return o
        if name == "is_integer":
            return G.boolvar(("is_integer", vkey(o)))
    it.unsupported(f"method {name} of {o!r}"[:160], node)


def arr_mut_sort(it, st, node, o, args, kw):
    it.unsupported("array sort", node)


def _fill(it, st, node, o, args, kw):
    it.store_arr(st, o, [args[0]] * len(o.idx), node)
    return None


ARRM = {
    "copy": lambda it, st, n, o, a, k: same_type(it, st, o),
    "astype": lambda it, st, n, o, a, k: it.new_array(st, o.shape, it.arr_elems(st, o)),
    "tolist": lambda it, st, n, o, a, k: _tolist(it, st, o),
    "flatten": lambda it, st, n, o, a, k: it.new_array(st, (len(o.idx),), it.arr_elems(st, o)),
    "ravel": lambda it, st, n, o, a, k: ArrRef(o.loc, (len(o.idx),), o.idx),
    "reshape": lambda it, st, n, o, a, k: reshape(it, st, o, a[0] if len(a) == 1 else Tup(a), n),
    "transpose": lambda it, st, n, o, a, k: transpose(o),
    "dot": lambda it, st, n, o, a, k: matmul(it, o, a[0], st, n),
    "fill": _fill, "sort": arr_mut_sort,
    "item": lambda it, st, n, o, a, k: it.arr_elems(st, o)[0 if not a else a[0]],
    "squeeze": lambda it, st, n, o, a, k: ArrRef(o.loc, tuple(s for s in o.shape if s != 1), o.idx),
}


def _tolist(it, st, o):
    if len(o.shape) == 1:
        return it.new_list(st, it.arr_elems(st, o))
    return it.new_list(st, [_tolist(it, st, x) for x in it.try_iterate(o, st)])


def list_method(it, st, node, o, c, name, args, kw):
    if name == "append":
        it.note_mutation(st, o.loc, node)
        it.note_recorded(st, c, args[0])
        st.heap[o.loc] = ListC(c.items + (args[0],), c.base)
        return None
    if name == "extend":
        it.note_mutation(st, o.loc, node)
        new = tuple(it.iterate(args[0], st, node))
        for x in new:
            it.note_recorded(st, c, x)
        st.heap[o.loc] = ListC(c.items + new, c.base)
        return None
    if name == "insert" and c.base is None and isinstance(args[0], int):
        it.note_mutation(st, o.loc, node)
        l = list(c.items)
        l.insert(args[0], args[1])
        st.heap[o.loc] = ListC(l, None)
        return None
    if c.base is not None and (name in ("popleft", "appendleft", "insert") or name == "pop" and args and isinstance(it.as_index(args[0]), int) and it.as_index(args[0]) >= 0):
        it.note_mutation(st, o.loc, node)
        it.event(st, "dropped", c.base.label, name, "", o.loc)
        return Opq("listitem", (c.base.label, name)) if name.startswith("pop") else None
    if name == "pop":
        i = it.as_index(args[0]) if args else -1
        n = len(c.items)
        if isinstance(i, int) and ((c.base is None and -n <= i < n) or (i < 0 and -i <= n)):
            it.note_mutation(st, o.loc, node)
            l = list(c.items)
            v = l.pop(i)
            st.heap[o.loc] = ListC(l, c.base)
            return v
        it.unsupported("list.pop", node)
    if name == "copy":
        return Ref(it.alloc(st, c))
    if name == "clear":
        it.note_mutation(st, o.loc, node)
        st.heap[o.loc] = ListC(())
        return None
    if name == "reverse" and c.base is None:
        it.note_mutation(st, o.loc, node)
        st.heap[o.loc] = ListC(c.items[::-1])
        return None
    if name == "index" and c.base is None:
        for i, x in enumerate(c.items):
            if vkey(x) == vkey(args[0]):
                return i
    if name == "count" and c.base is None:
        return vsum(it, [lift(lambda b: 1 if b else 0, it.truth(it.compare("Eq", x, args[0], st, node), st)) for x in c.items])
    if name == "sort" and c.base is None:
        it.note_mutation(st, o.loc, node)
        r = sort_network(it, st, node, list(c.items), kw.get("key"), kw.get("reverse", False))
        if r is not None:
            st.heap[o.loc] = ListC(list(r), None)
            return None
        k = tuple(snapshot(it, st, x) for x in c.items)
        rev = vkey(kw.get("reverse", False))
        st.heap[o.loc] = ListC([Opq("sorted item", (i, rev, vkey(kw.get("key")))+k) for i in range(len(c.items))], None)
        return None
    if name in ("popleft", "appendleft", "extendleft", "rotate") and c.base is None:
        it.note_mutation(st, o.loc, node)
        l = list(c.items)
        if name == "popleft" and l:
            st.heap[o.loc] = ListC(l[1:], None)
            return l[0]
        if name == "appendleft":
            st.heap[o.loc] = ListC([args[0]] + l, None)
            return None
    if name in ("sort", "remove"):
        it.note_mutation(st, o.loc, node)
    it.unsupported(f"list.{name}", node)


def present_items(it, c, st, node=None):
    """(key, value) pairs of a dictionary whose key set is known here"""
    out = []
    for k, v in c.items.values():
        if isinstance(v, Node):
            p = G.restrict(lift(lambda z: z is not UNBOUND, v), st.pc)
            if p is False:
                continue
            if p is not True:
                it.unsupported("iteration over a dictionary whose keys depend on a condition", node)
        elif v is UNBOUND:
            continue
        out.append((k, v))
    return out


def dict_method(it, st, node, o, c, name, args, kw):
    if name == "get":
        k = args[0]
        d = args[1] if len(args) > 1 else None

        def f(x):
            kv = c.items.get(vkey(x))
            if kv is None:
                return Opq("dictget", (o, x, d)) if isinstance(x, Opq) else d
            return lift(lambda v: d if v is UNBOUND else v, kv[1])
        return lift(f, k)
    if name == "items":
        return Tup(Tup((k, v)) for k, v in present_items(it, c, st, node))
    if name == "keys":
        return Tup(k for k, v in present_items(it, c, st, node))
    if name == "values":
        return Tup(v for k, v in present_items(it, c, st, node))
    if name == "copy":
        return Ref(it.alloc(st, c))
    if name == "update":
        it.note_mutation(st, o.loc, node)
        d = dict(c.items)
        new = {}
        if args:
            src = st.heap[args[0].loc] if isinstance(args[0], Ref) else None
            if isinstance(src, DictC):
                new.update(src.items)
            else:
                for p in it.iterate(args[0], st, node):
                    k, v = it.iterate(p, st, node)
                    new[vkey(k)] = (k, v)
        for k, v in kw.items():
            new[vkey(k)] = (k, v)
        d.update(new)
        from .interp import AttrDictC
        if isinstance(c, AttrDictC):
            for k, v in new.values():
                it.setattr(c.owner, k, v, st, node)
            st.heap[o.loc] = AttrDictC(d, c.owner)
        else:
            st.heap[o.loc] = DictC(d)
        return None
    if name == "setdefault":
        kv = c.items.get(vkey(args[0]))
        if kv is not None and isinstance(kv[1], Node) and any(l is UNBOUND for l, _ in G.leaves(kv[1])):
            it.unsupported("setdefault on a key that may be missing", node)
        if kv is not None:
            return kv[1]
        it.note_mutation(st, o.loc, node)
        d = dict(c.items)
        d[vkey(args[0])] = (args[0], args[1])
        st.heap[o.loc] = DictC(d)
        return args[1]
    if name == "pop":
        d = dict(c.items)
        kv = d.pop(vkey(args[0]), None)
        if kv is not None:
            it.note_mutation(st, o.loc, node)
            st.heap[o.loc] = DictC(d)
            return kv[1]
        if len(args) > 1:
            return args[1]
    it.unsupported(f"dict.{name}", node)


from . import npmore  # noqa: E402
import sys as _sys  # noqa: E402
npmore.install(_sys.modules[__name__])
from . import pymore  # noqa: E402
pymore.install(_sys.modules[__name__])
