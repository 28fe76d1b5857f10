"""Further library vocabulary: dataclasses, named tuples, operator, itertools,
context managers, memoised functions."""
import ast
import itertools
from . import terms as T
from . import gated as G
from .gated import Tup, lift, vkey
from .interp import (Ref, ArrRef, Ext, Cls, Func, Bound, Opq, OpaqueFn, ListC, DictC, InstC, IterC, NTup, Prop, UNBOUND)


class FieldV:
    """dataclasses.field(...)"""

    def __init__(self, default, factory, init):
        self.default, self.factory, self.init = default, factory, init


class GenCM:
    """call of a contextlib.contextmanager function"""

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, list(args), dict(kw)


class Cached:
    """function whose results are remembered per arguments (functools.lru_cache / cache)"""

    def __init__(self, func, loc):
        self.func, self.loc = func, loc
        self.name = func.name

    def __repr__(self):
        return f"<cached {self.name}>"


class CachedProp(Prop):
    """functools.cached_property: computed on first access, then an instance attribute"""


def call_cached(it, c, args, kw, st, node):
    k = Tup(list(args) + [x for n in sorted(kw) for x in (n, kw[n])])
    key = vkey(k)
    cell = st.heap[c.loc]

    def fresh(s):
        v = it.call(c.func, args, kw, s, node)
        old = s.heap[c.loc]
        d = dict(old.items)
        d[key] = (k, v)
        s.heap[c.loc] = DictC(d)
        it.note_mutation(s, c.loc, node)
        return v
    if not isinstance(cell, DictC):
        return it.case_content(Ref(c.loc), cell, st, lambda s: call_cached(it, c, args, kw, s, node))
    hit = cell.items.get(key)
    if hit is None:
        return fresh(st)
    present = lift(lambda z: z is not UNBOUND, hit[1])
    return it.choose(st, present, lambda s: lift(lambda z: z, G.restrict(hit[1], s.pc)), fresh)


def wrap(it, path, opq, v, st):
    """decorator named by path applied to function v; None when it keeps the behaviour"""
    if path in ("functools.lru_cache", "functools.cache") and isinstance(v, Func):
        return Cached(v, it.alloc(st, DictC({})))
    if path == "functools.cached_property":
        return CachedProp(v, None)
    if path == "contextlib.contextmanager" and isinstance(v, Func):
        return OpaqueFn(v.name, lambda it, s, args, kw: GenCM(v, args, kw))
    if path == "abc.abstractmethod":
        return v
    return None


def install(M):
    EXT, NPF, BUI = M.EXT, M.NPF, M.BUI
    M.FieldV, M.GenCM, M.Cached, M.CachedProp = FieldV, GenCM, Cached, CachedProp

    def f_field(it, st, node, args, kw):
        return FieldV(kw.get("default", UNBOUND), kw.get("default_factory", UNBOUND), kw.get("init", True) is not False)

    def f_replace(it, st, node, args, kw):
        o = args[0]
        c = st.heap[o.loc] if isinstance(o, Ref) else None
        if not isinstance(c, InstC) or getattr(c.cls, "dcfields", None) is None:
            return NotImplemented
        vals = {k: c.attrs[k] for k, d in c.cls.dcfields if not (isinstance(d, FieldV) and not d.init)}
        vals.update(kw)
        return it.instantiate(c.cls, [], vals, st, node)

    def f_asdict(it, st, node, args, kw):
        o = args[0]
        c = st.heap[o.loc] if isinstance(o, Ref) else None
        if not isinstance(c, InstC) or getattr(c.cls, "dcfields", None) is None:
            return NotImplemented
        return Ref(it.alloc(st, DictC({vkey(k): (k, M.deep(it, st, c.attrs[k], {})) for k, _ in c.cls.dcfields})))

    def f_astuple(it, st, node, args, kw):
        o = args[0]
        c = st.heap[o.loc] if isinstance(o, Ref) else None
        if not isinstance(c, InstC) or getattr(c.cls, "dcfields", None) is None:
            return NotImplemented
        return Tup(c.attrs[k] for k, _ in c.cls.dcfields)

    def f_namedtuple(it, st, node, args, kw):
        names = args[1].replace(",", " ").split() if isinstance(args[1], str) else it.iterate(args[1], st, node)
        if not all(isinstance(n, str) for n in names):
            return NotImplemented
        ds = it.iterate(kw["defaults"], st, node) if "defaults" in kw else []
        c = Cls(args[0] if isinstance(args[0], str) else "namedtuple", it.cur[-1][0] if it.cur else "?", [], {})
        c.ntfields = [(n, ds[i - len(names) + len(ds)] if i >= len(names) - len(ds) else UNBOUND) for i, n in enumerate(names)]
        return c

    ns_cls = Cls("SimpleNamespace", "types", [], {})

    def f_namespace(it, st, node, args, kw):
        return Ref(it.alloc(st, InstC(ns_cls, dict(kw))))

    # --- operator
    ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "mod": "Mod", "floordiv": "FloorDiv", "matmul": "MatMult",
           "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor"}
    for n, o in ops.items():
        EXT["operator." + n] = (lambda o: lambda it, st, node, args, kw: it.binop(o, args[0], args[1], st, node))(o)
    cmps = {"gt": "Gt", "lt": "Lt", "ge": "GtE", "le": "LtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot"}
    for n, o in cmps.items():
        EXT["operator." + n] = (lambda o: lambda it, st, node, args, kw: it.compare(o, args[0], args[1], st, node))(o)
    EXT["operator.contains"] = lambda it, st, node, args, kw: it.contains(args[0], args[1], st, node)
    EXT["operator.neg"] = lambda it, st, node, args, kw: it.unary(ast.USub(), args[0], st, node)
    EXT["operator.pos"] = lambda it, st, node, args, kw: args[0]
    EXT["operator.not_"] = lambda it, st, node, args, kw: G.b_not(it.truth(args[0], st, node))
    EXT["operator.truth"] = lambda it, st, node, args, kw: it.truth(args[0], st, node)
    EXT["operator.abs"] = lambda it, st, node, args, kw: BUI["abs"](it, st, node, args, kw)
    EXT["operator.getitem"] = lambda it, st, node, args, kw: it.getitem(args[0], args[1], st, node)
    EXT["operator.setitem"] = lambda it, st, node, args, kw: it.setitem(args[0], args[1], args[2], st, node)

    def f_itemgetter(it, st, node, args, kw):
        ks = list(args)

        def g(it, s, a, kw):
            r = [it.getitem(a[0], k, s, node) for k in ks]
            return r[0] if len(r) == 1 else Tup(r)
        return OpaqueFn("itemgetter", g)

    def f_attrgetter(it, st, node, args, kw):
        ks = list(args)
        if not all(isinstance(k, str) for k in ks):
            return NotImplemented

        def one(it, s, o, k):
            for p in k.split("."):
                o = it.getattr(o, p, s, node)
            return o

        def g(it, s, a, kw):
            r = [one(it, s, a[0], k) for k in ks]
            return r[0] if len(r) == 1 else Tup(r)
        return OpaqueFn("attrgetter", g)

    def f_methodcaller(it, st, node, args, kw):
        name, rest, k2 = args[0], list(args[1:]), dict(kw)
        return OpaqueFn("methodcaller", lambda it, s, a, kw: it.call(it.getattr(a[0], name, s, node), rest, k2, s, node))

    # --- itertools
    def items(f):
        def g(it, st, node, args, kw):
            seqs = [it.try_iterate(a, st, node) for a in args]
            if any(s is None for s in seqs):
                return NotImplemented
            r = f(it, st, node, seqs, kw)
            return NotImplemented if r is None else Ref(it.alloc(st, IterC(r)))
        return g

    def f_accumulate(it, st, node, args, kw):
        xs = it.try_iterate(args[0], st, node)
        if xs is None:
            return NotImplemented
        fn = args[1] if len(args) > 1 else kw.get("func")
        out = [] if "initial" not in kw or kw["initial"] is None else [kw["initial"]]
        for x in xs:
            out.append(x if not out else it.binop("Add", out[-1], x, st, node) if fn is None else it.call(fn, [out[-1], x], {}, st, node))
        return Ref(it.alloc(st, IterC(out)))

    def f_islice(it, st, node, args, kw):
        ks = [it.as_index(x) for x in args[1:]]
        if not all(x is None or isinstance(x, int) for x in ks):
            return NotImplemented
        if isinstance(args[0], Opq) and args[0].name == "endless":
            xs = endless(it, st, args[0], ks[0] if len(ks) == 1 else ks[1])
        else:
            xs = it.try_iterate(args[0], st, node)
        if xs is None:
            return NotImplemented
        return Ref(it.alloc(st, IterC(list(itertools.islice(xs, *ks)))))

    def endless(it, st, o, n):
        if n is None:
            return None
        kind = o.args[0]
        if kind == "count":
            out = [o.args[1]]
            while len(out) < n:
                out.append(it.binop("Add", out[-1], o.args[2], st, None))
            return out[:n]
        if kind == "repeat":
            return [o.args[1]] * n
        return None

    def f_count(it, st, node, args, kw):
        return Opq("endless", ("count", args[0] if args else kw.get("start", 0), args[1] if len(args) > 1 else kw.get("step", 1)))

    def f_repeat(it, st, node, args, kw):
        if len(args) == 1 and "times" not in kw:
            return Opq("endless", ("repeat", args[0]))
        n = it.as_index(args[1] if len(args) > 1 else kw["times"])
        return Ref(it.alloc(st, IterC([args[0]] * n))) if isinstance(n, int) else NotImplemented

    zip0, map0 = BUI["zip"], BUI["map"]

    def spread(it, st, node, seqs):
        """make endless arguments as long as the finite ones"""
        fin = [s for s in seqs if not (isinstance(s, Opq) and s.name == "endless")]
        if len(fin) == len(seqs) or not fin:
            return seqs
        ls = {}
        for i, s in enumerate(seqs):
            if s in fin:
                v = it.try_iterate(s, st, node)
                if v is None:
                    return seqs
                ls[i] = v
        n = min(len(v) for v in ls.values())
        return [Tup(ls[i]) if i in ls else Tup(endless(it, st, s, n)) for i, s in enumerate(seqs)]

    BUI["zip"] = lambda it, st, node, args, kw: zip0(it, st, node, spread(it, st, node, list(args)), kw)
    BUI["map"] = lambda it, st, node, args, kw: map0(it, st, node, [args[0]] + spread(it, st, node, list(args[1:])), kw)

    def f_starmap(it, st, node, args, kw):
        xs = it.try_iterate(args[1], st, node)
        if xs is None:
            return NotImplemented
        return Ref(it.alloc(st, IterC([it.call(args[0], it.iterate(x, st, node), {}, st, node) for x in xs])))

    def f_filterlike(keep):
        def g(it, st, node, args, kw):
            xs = it.try_iterate(args[1], st, node)
            if xs is None:
                return NotImplemented
            flags = [G.restrict(it.truth(it.call(args[0], [x], {}, st, node), st, node), st.pc) for x in xs]
            if not all(isinstance(f, bool) for f in flags):
                return NotImplemented
            return Ref(it.alloc(st, IterC(keep(xs, flags))))
        return g

    EXT.update({
        "itertools.chain": items(lambda it, st, node, seqs, kw: [x for s in seqs for x in s]),
        "itertools.chain.from_iterable": items(lambda it, st, node, seqs, kw: [x for s in seqs[0] for x in it.iterate(s, st, node)]),
        "itertools.accumulate": f_accumulate, "itertools.islice": f_islice, "itertools.count": f_count, "itertools.repeat": f_repeat,
        "itertools.pairwise": items(lambda it, st, node, seqs, kw: [Tup(p) for p in zip(seqs[0], seqs[0][1:])]),
        "itertools.starmap": f_starmap,
        "itertools.zip_longest": items(lambda it, st, node, seqs, kw: [Tup(p) for p in itertools.zip_longest(*seqs, fillvalue=kw.get("fillvalue"))]),
        "itertools.takewhile": f_filterlike(lambda xs, fs: [x for x, _ in itertools.takewhile(lambda p: p[1], zip(xs, fs))]),
        "itertools.dropwhile": f_filterlike(lambda xs, fs: [x for x, _ in itertools.dropwhile(lambda p: p[1], zip(xs, fs))]),
        "itertools.filterfalse": f_filterlike(lambda xs, fs: [x for x, f in zip(xs, fs) if not f]),
        "itertools.compress": lambda it, st, node, args, kw: f_compress(it, st, node, args, kw),
        "itertools.combinations": lambda it, st, node, args, kw: (lambda xs, n: NotImplemented if xs is None or not isinstance(n, int) else Ref(it.alloc(
            st, IterC([Tup(c) for c in itertools.combinations(xs, n)]))))(it.try_iterate(args[0], st, node), it.as_index(args[1])),
        "dataclasses.field": f_field, "dataclasses.replace": f_replace, "dataclasses.asdict": f_asdict, "dataclasses.astuple": f_astuple,
        "collections.namedtuple": f_namedtuple, "types.SimpleNamespace": f_namespace,
        "operator.itemgetter": f_itemgetter, "operator.attrgetter": f_attrgetter, "operator.methodcaller": f_methodcaller,
        "collections.OrderedDict": lambda it, st, node, args, kw: BUI["dict"](it, st, node, args, kw),
        "collections.deque": lambda it, st, node, args, kw: BUI["list"](it, st, node, args[:1], {}) if len(args) < 2 and not kw else NotImplemented,
        "typing.cast": lambda it, st, node, args, kw: args[1],
        "contextlib.suppress": lambda it, st, node, args, kw: Opq("suppress", tuple(args)),
        "contextlib.nullcontext": lambda it, st, node, args, kw: Opq("nullcontext", tuple(args)),
        "functools.update_wrapper": lambda it, st, node, args, kw: args[0]})

    def f_compress(it, st, node, args, kw):
        xs, fs = it.try_iterate(args[0], st, node), it.try_iterate(args[1], st, node)
        if xs is None or fs is None:
            return NotImplemented
        fs = [G.restrict(it.truth(f, st, node), st.pc) for f in fs]
        if not all(isinstance(f, bool) for f in fs):
            return NotImplemented
        return Ref(it.alloc(st, IterC([x for x, f in zip(xs, fs) if f])))

    len0 = BUI["len"]

    def b_len(it, st, node, args, kw):
        m = it.dunder(args[0], "__len__", st)
        return it.call(m, [], {}, st, node) if m is not None else len0(it, st, node, args, kw)
    BUI["len"] = b_len

    abs0 = BUI["abs"]

    def b_abs(it, st, node, args, kw):
        m = it.dunder(args[0], "__abs__", st)
        return it.call(m, [], {}, st, node) if m is not None else abs0(it, st, node, args, kw)
    BUI["abs"] = b_abs

    def b_next(it, st, node, args, kw):
        o = args[0]
        if isinstance(o, Ref):
            c = st.heap[o.loc]
            if isinstance(c, IterC):
                if c.items:
                    st.heap[o.loc] = IterC(c.items[1:])
                    it.note_mutation(st, o.loc, node)
                    return c.items[0]
                if len(args) > 1:
                    return args[1]
                it.raise_(st, "StopIteration", "", node)
            m = it.dunder(o, "__next__", st)
            if m is not None:
                return it.call(m, [], {}, st, node)
            return NotImplemented
        s = it.try_iterate(o, st, node)
        if s:
            return s[0]
        if s is not None and len(args) > 1:
            return args[1]
        return NotImplemented
    BUI["next"] = b_next

    def b_iter(it, st, node, args, kw):
        o = args[0]
        if isinstance(o, Ref) and isinstance(st.heap[o.loc], IterC):
            return o
        xs = it.try_iterate(o, st, node)
        return o if xs is None else Ref(it.alloc(st, IterC(xs)))
    BUI["iter"] = b_iter

    def b_issubclass(it, st, node, args, kw):
        def sub(c, t):
            return c is t or isinstance(c, Cls) and any(sub(b, t) for b in c.bases)
        if isinstance(args[0], Cls) and isinstance(args[1], Cls):
            return sub(args[0], args[1])
        return NotImplemented
    BUI["issubclass"] = b_issubclass

    attr0 = M.obj_attr

    def obj_attr(it, o, name, st, node=None):
        if isinstance(o, NTup):
            names = [k for k, _ in o.cls.ntfields]
            if name in names:
                return o.items[names.index(name)]
            if name == "_replace":
                def g(it, s, args, kw):
                    return NTup([kw.get(k, v) for k, v in zip(names, o.items)], o.cls)
                return OpaqueFn("_replace", g)
            if name == "_asdict":
                return OpaqueFn("_asdict", lambda it, s, args, kw: Ref(it.alloc(s, DictC({vkey(k): (k, v) for k, v in zip(names, o.items)}))))
            if name == "_fields":
                return Tup(names)
            m = o.cls.lookup(name)
            if m is not None:
                if isinstance(m, Prop):
                    return it.call(m.get, [o], {}, st, node)
                return Bound(m, o) if isinstance(m, Func) else m
        return attr0(it, o, name, st, node)
    M.obj_attr = obj_attr

    cl0 = M.callable_leaf
    M.callable_leaf = lambda it, st, x: True if isinstance(x, Cached) else cl0(it, st, x)
