"""Dataflow analysis of Python source: builds the gated value graph of functions.

The analyser walks the syntax tree once per function context, joining control
flow at merge points (no path enumeration): every variable, attribute, list slot
and array element holds a canonical gated value (gated.py) over canonical scalars
(terms.py).  Calls to functions defined in the analysed package are resolved
through the abstract values (functions, bound methods, closures, tables) and
analysed in context; library calls go through models.py; anything unknown becomes
an uninterpreted application, so congruence still holds.  Loops over a statically
known number of elements are expanded; other loops are summarised by an
optimistic value-numbering fixpoint over the loop-carried slots.
"""
import ast
import os
from . import terms as T
from . import gated as G
from .terms import Poly, Fr
from .gated import Node, Tup, lift, ite, b_and, b_or, b_not, vkey, same


class Unsupported(Exception):
    def __init__(self, msg, node=None, mod=None):
        self.msg = msg
        self.node = node
        self.mod = mod
        super().__init__(msg)

    def __str__(self):
        loc = ""
        if self.mod is not None:
            loc = f"{self.mod}:"
        if self.node is not None and hasattr(self.node, "lineno"):
            loc += f"{self.node.lineno}: "
        return loc + self.msg


class Dead(Exception):
    """the current abstract state became unreachable"""


class _Single:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN = _Single("nan")
UNBOUND = _Single("<unbound>")
EMPTY = _Single("<empty>")
ELLIPSIS = _Single("...")
NOTIMPL = _Single("NotImplemented")


class Ref:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __hash__(self):
        return hash(("Ref", self.loc))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __repr__(self):
        return f"ref{self.loc}"


class Long(int):
    """length of a recorded list: stands for every length, so comparisons with a large constant are open"""

    def __add__(self, o):
        return Long(int(self) + o) if type(o) in (int, Long) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return Long(int(self) - o) if type(o) in (int, Long) else NotImplemented

    @staticmethod
    def big(x):
        """a constant beyond the lengths analysed"""
        if isinstance(x, (bool, Long)):
            return None
        if isinstance(x, Poly):
            x = x.const()
        return x if isinstance(x, (int, T.Fr)) and x >= 10 else None

    @staticmethod
    def beyond(c):
        return G.boolvar(("recorded length of at least", str(c)))


class ArrRef:
    """numpy array (view): flat indices into the base storage"""
    __slots__ = ("loc", "shape", "idx")

    def __init__(self, loc, shape, idx):
        self.loc, self.shape, self.idx = loc, tuple(shape), tuple(idx)

    def __hash__(self):
        return hash(("Arr", self.loc, self.shape, self.idx))

    def __eq__(self, o):
        return isinstance(o, ArrRef) and o.loc == self.loc and o.shape == self.shape and o.idx == self.idx

    def __repr__(self):
        return f"array{self.loc}{list(self.shape)}"


class Func:
    __slots__ = ("node", "env", "mod", "name", "qual", "defaults", "kwdefaults", "cls", "key")

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Func) and o.key == self.key

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __hash__(self):
        return hash(("Bound", vkey(self.func), vkey(self.self_)))

    def __eq__(self, o):
        return isinstance(o, Bound) and vkey(o.func) == vkey(self.func) and vkey(o.self_) == vkey(self.self_)

    def __repr__(self):
        return f"<method {self.func}>"


class Cls:
    def __init__(self, name, mod, bases, attrs):
        self.name, self.mod, self.bases, self.attrs = name, mod, bases, attrs
        self.qual = f"{mod}.{name}"

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def mro_ext(self):
        out = []
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro_ext()
            else:
                out.append(b)
        return out

    def __repr__(self):
        return f"<class {self.qual}>"


class Prop:
    def __init__(self, get=None, set_=None):
        self.get, self.set = get, set_


class Static:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Ext:
    """external (library) object named by a dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __hash__(self):
        return hash(("Ext", self.path))

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __repr__(self):
        return self.path


class Mod:
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return f"<module {self.name}>"


class Builtin:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("B", self.name))

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __repr__(self):
        return self.name


class Method:
    """method of a modelled builtin object (list.append, array.copy, str.join ...)"""
    __slots__ = ("name", "self_")

    def __init__(self, name, self_):
        self.name, self.self_ = name, self_

    def __hash__(self):
        return hash(("M", self.name, vkey(self.self_)))

    def __eq__(self, o):
        return isinstance(o, Method) and o.name == self.name and vkey(o.self_) == vkey(self.self_)


class Opq:
    """uninterpreted object"""
    __slots__ = ("name", "args", "_k")

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)
        self._k = (name, tuple(vkey(a) for a in self.args))

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, Opq) and o._k == self._k

    def __repr__(self):
        a = ", ".join(map(lambda v: str(v)[:60], self.args))
        return f"{self.name}({a})"


class OpaqueFn:
    """function with an analysis-provided model: model(interp, state, args, kwargs)"""

    def __init__(self, name, model):
        self.name, self.model = name, model

    def __repr__(self):
        return f"<opaque {self.name}>"


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __hash__(self):
        return hash((vkey(self.a), vkey(self.b), vkey(self.c)))

    def __eq__(self, o):
        return isinstance(o, SliceV) and (vkey(self.a), vkey(self.b), vkey(self.c)) == (vkey(o.a), vkey(o.b), vkey(o.c))


# ------------------------------------------------------------ heap contents
class EnvC:
    __slots__ = ("vars", "parent", "glob")

    def __init__(self, vars, parent, glob=None):
        self.vars, self.parent, self.glob = vars, parent, glob


class ListC:
    __slots__ = ("items", "base")

    def __init__(self, items, base=None):
        self.items, self.base = tuple(items), base


class IterC(ListC):
    """remaining items of an iterator (generator object)"""
    __slots__ = ()


class HBase:
    """unknown list prefix of a loop-carried list"""
    __slots__ = ("label", "last", "lenv", "uid", "path", "entry")
    _n = 0

    def __init__(self, label, last, lenv):
        self.label, self.last, self.lenv = label, last, lenv
        HBase._n += 1
        self.uid = HBase._n

    def __repr__(self):
        return f"[...{self.label}...]"


class DictC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = dict(items)     # vkey -> (key, value)


class AttrDictC(DictC):
    """the __dict__ of an instance"""
    __slots__ = ("owner",)

    def __init__(self, items, owner=None):
        DictC.__init__(self, items)
        self.owner = owner


class ArrC:
    __slots__ = ("elems", "dt")

    def __init__(self, elems, dt=None):
        self.elems = tuple(elems)
        self.dt = dt                    # element type: None (float64), "int", "bool", "float32", ...


class InstC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class State:
    __slots__ = ("heap", "pc", "events")

    def __init__(self, heap=None, pc=True, events=None):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.events = events if events is not None else ()

    def fork(self, cond=True):
        s = State(dict(self.heap), self.pc, self.events)
        if cond is not True:
            s.pc = b_and(s.pc, cond)
        return s

    def assign(self, o):
        self.heap, self.pc, self.events = o.heap, o.pc, o.events


def merge(states):
    states = [s for s in states if s.pc is not False]
    if not states:
        return None
    r = states[0]
    for s in states[1:]:
        r = merge2(r, s)
    return r


def merge2(a, b):
    pc = b_or(a.pc, b.pc)
    sel = G.restrict(a.pc, pc)
    if sel is True and b.pc is not False:
        # overlapping (should not happen); keep a precise selector
        sel = a.pc
    heap = dict(a.heap)
    for loc, cb in b.heap.items():
        ca = heap.get(loc)
        if ca is None:
            heap[loc] = cb
        elif ca is not cb:
            heap[loc] = merge_content(sel, ca, cb)
    n = 0
    ea, eb = a.events, b.events
    m = min(len(ea), len(eb))
    if ea is eb:
        ev = ea
    else:
        while n < m and ea[n] is eb[n]:
            n += 1
        ev = ea + eb[n:]
    return State(heap, pc, ev)


def merge_content(c, x, y):
    if x is y:
        return x
    if type(x) is type(y):
        if isinstance(x, EnvC) and x.parent == y.parent:
            v = dict(x.vars)
            for k in set(x.vars) | set(y.vars):
                a, b = x.vars.get(k, UNBOUND), y.vars.get(k, UNBOUND)
                v[k] = a if a is b else merge_val(c, a, b)
            return EnvC(v, x.parent, x.glob)
        if isinstance(x, InstC) and x.cls is y.cls:
            v = dict(x.attrs)
            for k in set(x.attrs) | set(y.attrs):
                a, b = x.attrs.get(k, UNBOUND), y.attrs.get(k, UNBOUND)
                v[k] = a if a is b else merge_val(c, a, b)
            return InstC(x.cls, v)
        if isinstance(x, ArrC) and len(x.elems) == len(y.elems):
            return ArrC((a if a is b else merge_val(c, a, b) for a, b in zip(x.elems, y.elems)), x.dt if x.dt == y.dt else None)
        if isinstance(x, ListC) and len(x.items) == len(y.items) and x.base is y.base:
            return type(x)((a if a is b else merge_val(c, a, b) for a, b in zip(x.items, y.items)), x.base)
        if isinstance(x, DictC):
            out = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                ka, a = x.items.get(k, (None, UNBOUND))
                kb, b = y.items.get(k, (None, UNBOUND))
                out[k] = (ka if k in x.items else kb, a if a is b else merge_val(c, a, b))
            return DictC(out)
    return ite(c, x, y)


class NTup(Tup):
    """tuple with named fields"""
    __slots__ = ("cls",)

    def __init__(self, items, cls):
        Tup.__init__(self, items)
        self.cls = cls


def merge_val(c, a, b):
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        if isinstance(a, NTup) and isinstance(b, NTup) and a.cls is b.cls:
            return NTup((merge_val(c, x, y) for x, y in zip(a.items, b.items)), a.cls)
        return Tup(merge_val(c, x, y) for x, y in zip(a.items, b.items))
    return ite(c, a, b)


class Outcome:
    __slots__ = ("kind", "state", "value")

    def __init__(self, kind, state, value=None):
        self.kind, self.state, self.value = kind, state, value


BUILTINS = set("""abs all any bool callable dict enumerate filter float format getattr hasattr id int isinstance issubclass iter len list
map max min next object print property range repr reversed round set setattr slice sorted staticmethod classmethod str sum super tuple type
zip vars dir divmod pow frozenset complex hash input open __import__ locals globals delattr bytes ord chr""".split())
EXCEPTIONS = set("""Exception ValueError TypeError RuntimeError KeyError IndexError AttributeError AssertionError NotImplementedError
ZeroDivisionError ArithmeticError OverflowError FloatingPointError StopIteration ImportError ModuleNotFoundError OSError IOError FileNotFoundError
Warning UserWarning DeprecationWarning RuntimeWarning BaseException LookupError NameError UnboundLocalError KeyboardInterrupt""".split())

# exact images of well known float literals
_PI_LITS = {}
import math as _m
for _k in (Fr(1), Fr(2), Fr(1, 2), Fr(1, 4), Fr(3, 2), Fr(4), Fr(1, 3), Fr(2, 3)):
    _PI_LITS[float(_k) * _m.pi] = _k


def lit_float(x):
    if x != x:
        return NAN
    if x == float("inf"):
        return T.INF
    if x == float("-inf"):
        return -T.INF
    if x in _PI_LITS:
        return T.PI * T.const(_PI_LITS[x])
    if x == _m.pi / 180:
        return T.PI * T.const(Fr(1, 180))
    if x == 180 / _m.pi:
        return T.const(180) / T.PI
    return T.const(Fr(repr(x)))


def is_text(v):
    """text with unknown parts"""
    return isinstance(v, Opq) and v.name in ("fstring", "fmt", "join", "strMod", "strAdd", "strMult", "strmethod", "str", "repr")


class Interp:
    MAX_DEPTH = 40
    MAX_UNROLL = 400

    def __init__(self, root, package="pyqlaw", opaque=None):
        self.root = root
        self.package = package
        self.modules = {}
        self.sources = {}
        self.trees = {}
        self.opaque = opaque or {}
        self.in_history = {}      # loc -> [(history, condition)] objects appended to a loop-carried list
        self.ext = {}             # models of external functions given by a check
        self.nloc = 0
        self.depth = 0
        self.div_log = None       # scalar divisions: (pc, numerator, denominator, in compiled code, module, function, line)
        self.jit = 0              # depth of compiled functions on the call stack
        self.compiled = set()     # ids of the functions under a numba decorator
        self.raises = []          # (pc, exception name, mod, lineno, message)
        self.unbound = []         # (pc, name, mod, lineno)
        self.domain = []          # (pc, fn, arg, mod, lineno)
        self.loops = []
        self.peel = 0             # number of passes analysed exactly instead of a summary of the loop
        self.passes = []
        self.long = frozenset()   # lengths of lists that stand for lists of every length
        self.snap_calls = False   # keep the content of the arguments of calls of unknown objects
        self.raise_states = None  # list of the states at which an exception leaves a statement
        self.loop_hook = None     # checker-side companion of the next summarised loop
        self.mutations = []       # (loc, mod, lineno)
        self.calls = {}           # qualified function -> number of analysed contexts
        self.stmts = 0
        self.envnode = {}         # environment -> function syntax
        self.cur = []             # stack of (mod, func, node)
        self.state0 = State()
        self.trap_unbound = True
        self.watch = {}           # loc -> label  (objects whose mutation is reported)
        self.sympy_assume = {}
        from . import models
        self.models = models

    # ------------------------------------------------------------ utilities
    def alloc(self, st, content):
        self.nloc += 1
        st.heap[self.nloc] = content
        return self.nloc

    def new_list(self, st, items):
        return Ref(self.alloc(st, ListC(items)))

    def new_array(self, st, shape, elems):
        elems = tuple(elems)
        loc = self.alloc(st, ArrC(elems))
        return ArrRef(loc, shape, range(len(elems)))

    def arr_elems(self, st, a):
        c = st.heap[a.loc]
        if isinstance(c, Node):
            return tuple(lift(lambda x, i=i: x.elems[i], c) for i in a.idx)
        return tuple(c.elems[i] for i in a.idx)

    def where(self, node=None):
        mod = self.cur[-1][0] if self.cur else "?"
        n = node if node is not None and hasattr(node, "lineno") else (self.cur[-1][2] if self.cur else None)
        fn = self.cur[-1][1] if self.cur else "?"
        return mod, fn, getattr(n, "lineno", 0)

    def unsupported(self, msg, node=None):
        mod, fn, line = self.where(node)
        e = Unsupported(f"{msg} (in {fn})", node, mod)
        raise e

    def event(self, st, kind, *data):
        mod, fn, line = self.where()
        st.events = st.events + ((st.pc, kind, data, mod, fn, line),)

    def note_mutation(self, st, loc, node=None):
        mod, fn, line = self.where(node)
        if loc in self.watch:
            self.mutations.append((self.watch[loc], mod, fn, line, st.pc))
        for lab, pc in self.in_history.get(loc, ()):
            both = b_and(pc, st.pc)
            if both is not False:
                self.mutations.append((lab, mod, fn, line, both))

    def note_recorded(self, st, c, v):
        """v becomes an entry of a loop-carried list"""
        if c.base is not None:
            from .loops import reachable
            for loc in reachable(v, st):
                self.in_history.setdefault(loc, []).append((f"recorded element of {c.base.label}", st.pc))

    # --------------------------------------------------------------- modules
    def module_path(self, name):
        base = os.path.join(self.root, *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                return p
        return None

    def load(self, name, st=None):
        st = st or self.state0
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            return None
        src = open(path, encoding="utf-8").read()
        return self.load_source(name, src, path, st)

    def load_source(self, name, src, path, st=None):
        st = st or self.state0
        tree = ast.parse(src, path)
        env = self.alloc(st, EnvC({"__name__": name, "__file__": path, "__doc__": ""}, None))
        m = Mod(name, env)
        self.modules[name] = m
        self.sources[name] = src
        self.trees[name] = tree
        self.cur.append((name, "<module>", tree))
        outs = self.block(tree.body, st, env)
        self.cur.pop()
        nxt = [o for o in outs if o.kind == "next"]
        if not nxt:
            raise Unsupported(f"module {name} does not complete")
        st.assign(nxt[0].state)
        return m

    def module_global(self, modname, name, st=None):
        st = st or self.state0
        m = self.modules.get(modname)
        if m is None:
            m = self.load(modname, st)
        if m is None:
            return None
        return st.heap[m.env].vars.get(name)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, env):
        """-> list of outcomes; consumes st"""
        pending = []
        for s in stmts:
            outs = self.stmt(s, st, env)
            nxt = None
            for o in outs:
                if o.kind == "next":
                    nxt = o.state if nxt is None else merge2(nxt, o.state)
                else:
                    pending.append(o)
            if nxt is None or nxt.pc is False:
                return pending
            st = nxt
        pending.append(Outcome("next", st))
        return pending

    def stmt(self, s, st, env):
        self.stmts += 1
        if self.cur:
            m, f, _ = self.cur[-1]
            self.cur[-1] = (m, f, s)
        meth = getattr(self, "s_" + type(s).__name__, None)
        if meth is None:
            self.unsupported(f"statement {type(s).__name__}", s)
        try:
            return meth(s, st, env)
        except Dead:
            return []
        except G.GateBlowup:
            self.unsupported("gated value too large", s)
        except T.TooBig:
            self.unsupported("expression too large", s)

    def nxt(self, st):
        return [Outcome("next", st)]

    def s_Pass(self, s, st, env):
        return self.nxt(st)

    def s_Expr(self, s, st, env):
        self.eval(s.value, st, env)
        return self.nxt(st)

    def s_Import(self, s, st, env):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.package:
                m = self.load(a.name, st)
                if a.asname:
                    self.setvar(st, env, a.asname, m)
                else:
                    self.setvar(st, env, top, self.load(top, st) or m)
            else:
                if a.asname:
                    self.setvar(st, env, a.asname, Ext(a.name))
                else:
                    self.setvar(st, env, top, Ext(top))
        return self.nxt(st)

    def s_ImportFrom(self, s, st, env):
        mod = s.module or ""
        if s.level:
            cur = self.cur[-1][0]
            parts = cur.split(".")
            p = self.module_path(cur)
            if p and p.endswith("__init__.py"):
                parts = parts + ["__init__"]
            parts = parts[:len(parts) - s.level]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod.split(".")[0] == self.package or mod in self.modules:
            m = self.load(mod, st)
            if m is None:
                self.raise_(st, "ImportError", f"no module {mod}", s)
            for a in s.names:
                if a.name == "*":
                    for k, v in st.heap[m.env].vars.items():
                        if not k.startswith("_"):
                            self.setvar(st, env, k, v)
                    continue
                v = st.heap[m.env].vars.get(a.name)
                if v is None:
                    v = self.load(mod + "." + a.name, st)
                if v is None:
                    self.raise_(st, "ImportError", f"cannot import {a.name} from {mod}", s)
                self.setvar(st, env, a.asname or a.name, v)
        else:
            for a in s.names:
                if a.name == "*":
                    continue
                self.setvar(st, env, a.asname or a.name, self.models.ext_value(f"{mod}.{a.name}"))
        return self.nxt(st)

    def s_Global(self, s, st, env):
        c = st.heap[env]
        st.heap[env] = EnvC(c.vars, c.parent, (c.glob or ()) + tuple(("g", n) for n in s.names))
        return self.nxt(st)

    def s_Nonlocal(self, s, st, env):
        c = st.heap[env]
        st.heap[env] = EnvC(c.vars, c.parent, (c.glob or ()) + tuple(("n", n) for n in s.names))
        return self.nxt(st)

    def s_FunctionDef(self, s, st, env):
        f = self.make_func(s, st, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, env)
        self.setvar(st, env, s.name, v)
        return self.nxt(st)

    def make_func(self, s, st, env, name=None):
        f = Func()
        f.node = s
        f.env = env
        f.mod = self.cur[-1][0]
        f.name = name or getattr(s, "name", "<lambda>")
        c = st.heap[env]
        prefix = c.vars.get("__qualprefix__", "") if isinstance(c, EnvC) else ""
        f.qual = f"{f.mod}.{prefix}{f.name}"
        f.defaults = tuple(self.eval(d, st, env) for d in s.args.defaults)
        f.kwdefaults = tuple(self.eval(d, st, env) if d is not None else UNBOUND for d in s.args.kw_defaults)
        for a, d in list(zip((s.args.posonlyargs + s.args.args)[len(s.args.posonlyargs + s.args.args) - len(f.defaults):], f.defaults)) + list(zip(s.args.kwonlyargs, f.kwdefaults)):
            if isinstance(d, (Ref, ArrRef)):
                self.watch.setdefault(d.loc, f"input default of {a.arg}")
        f.cls = None
        f.key = (id(s), env, tuple(vkey(d) for d in f.defaults), tuple(vkey(d) for d in f.kwdefaults))
        return f

    def decorate(self, d, v, st, env):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.eval(d.value, st, env)
            if isinstance(p, Prop):
                return Prop(p.get if d.attr != "getter" else v, v if d.attr == "setter" else p.set)
        dv = self.eval(d, st, env)
        if isinstance(dv, Builtin):
            if dv.name == "property":
                return Prop(v, None)
            if dv.name == "staticmethod":
                return Static(v)
            if dv.name == "classmethod":
                return ClassM(v)
        path = dv.path if isinstance(dv, Ext) else dv.args[0].path if isinstance(dv, Opq) and dv.name == "call" and dv.args and isinstance(dv.args[0], Ext) else None
        if path is not None:
            if path.split(".")[0] == "numba" and isinstance(v, Func):
                self.compiled.add(id(v.node))
            w = self.models.pymore.wrap(self, path, dv, v, st)
            if w is not None:
                return w
        if isinstance(dv, (Ext, Opq)):
            return v      # library decorators used here (njit, jit, wraps, lru_cache) keep the behaviour
        return self.call(dv, [v], {}, st, d)

    def s_ClassDef(self, s, st, env):
        bases = [self.eval(b, st, env) for b in s.bases]
        cenv = self.alloc(st, EnvC({"__qualprefix__": s.name + "."}, env))
        outs = self.block(s.body, st, cenv)
        nx = [o for o in outs if o.kind == "next"]
        st = nx[0].state
        attrs = {k: v for k, v in st.heap[cenv].vars.items() if k != "__qualprefix__"}
        c = Cls(s.name, self.cur[-1][0], bases, attrs)
        for v in attrs.values():
            for f in (v, getattr(v, "f", None), getattr(v, "get", None), getattr(v, "set", None)):
                if isinstance(f, Func) and f.cls is None:
                    f.cls = c
        # class scope is not visible from methods
        for v in attrs.values():
            for f in (v, getattr(v, "f", None), getattr(v, "get", None), getattr(v, "set", None)):
                if isinstance(f, Func) and f.env == cenv:
                    f.env = env
        own = [(x.target.id, attrs.get(x.target.id, UNBOUND)) for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        if any(isinstance(b, Ext) and b.path == "typing.NamedTuple" for b in bases):
            c.ntfields = own
        if any(isinstance(b, Ext) and b.path in ("enum.Enum", "enum.IntEnum") for b in bases):
            c.members = {}
            for k, m in list(attrs.items()):
                if not k.startswith("__") and not isinstance(m, (Func, Prop, Static, ClassM)):
                    c.attrs[k] = c.members[k] = Ref(self.alloc(st, InstC(c, {"name": k, "value": m, "_name_": k, "_value_": m})))
        v = c
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, env)
            path = dv.path if isinstance(dv, Ext) else dv.args[0].path if isinstance(dv, Opq) and dv.name == "call" and dv.args and isinstance(dv.args[0], Ext) else ""
            if path == "dataclasses.dataclass":
                fs = {}
                for b in reversed([b for b in bases if isinstance(b, Cls)]):
                    fs.update(getattr(b, "dcfields", None) or [])
                fs.update(own)
                c.dcfields = list(fs.items())
                for k, x in own:
                    if isinstance(x, self.models.FieldV):
                        c.attrs.pop(k, None)
            if not isinstance(dv, (Ext, Opq)):
                v = self.call(dv, [v], {}, st, d)
        self.setvar(st, env, s.name, v)
        return self.nxt(st)

    def s_Return(self, s, st, env):
        v = self.eval(s.value, st, env) if s.value is not None else None
        return [Outcome("return", st, v)]

    def s_Assign(self, s, st, env):
        v = self.eval(s.value, st, env)
        for t in s.targets:
            self.assign(t, v, st, env)
        return self.nxt(st)

    def s_AnnAssign(self, s, st, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, env), st, env)
        return self.nxt(st)

    def s_AugAssign(self, s, st, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.getvar(st, env, t.id, t)
            new = self.augment(s.op, old, self.eval(s.value, st, env), st, s)
            self.setvar(st, env, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, env)
            old = self.getattr(o, t.attr, st, t)
            new = self.augment(s.op, old, self.eval(s.value, st, env), st, s)
            self.setattr(o, t.attr, new, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, env)
            k = self.eval_index(t.slice, st, env)
            old = self.getitem(o, k, st, t)
            new = self.augment(s.op, old, self.eval(s.value, st, env), st, s)
            self.setitem(o, k, new, st, t)
        else:
            self.unsupported("augmented target", s)
        return self.nxt(st)

    def augment(self, op, old, val, st, node):
        """in-place operators on arrays/lists mutate the object"""
        if isinstance(old, ArrRef):
            new = self.binop(op, old, val, st, node)
            if isinstance(new, ArrRef) and new.shape == old.shape:
                self.store_arr(st, old, self.arr_elems(st, new), node)
                return old
            return new
        if isinstance(old, Ref) and isinstance(st.heap[old.loc], ListC) and isinstance(op, ast.Add):
            items = self.iterate(val, st, node)
            c = st.heap[old.loc]
            for x in items:
                self.note_recorded(st, c, x)
            st.heap[old.loc] = ListC(c.items + tuple(items), c.base)
            self.note_mutation(st, old.loc, node)
            return old
        if isinstance(old, Node) and any(isinstance(l, (ArrRef, Ref)) for l, _ in G.leaves(old)):
            return self.case(old, st, lambda o, s: self.augment(op, o, val, s, node))
        return self.binop(op, old, val, st, node)

    def store_arr(self, st, a, elems, node=None):
        c = st.heap[a.loc]
        if isinstance(c, Node):
            self.unsupported("store into gated array storage", node)
        e = list(c.elems)
        for i, v in zip(a.idx, elems):
            e[i] = v if c.dt is None else self.models.npmore.convert(self, st, v, c.dt, node)
        st.heap[a.loc] = ArrC(e, c.dt)
        self.note_mutation(st, a.loc, node)

    def s_Delete(self, s, st, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(st, env, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, env)
                k = self.eval_index(t.slice, st, env)
                if isinstance(o, Ref):
                    c = st.heap[o.loc]
                    if isinstance(c, DictC):
                        it = dict(c.items)
                        it.pop(vkey(k), None)
                        st.heap[o.loc] = DictC(it)
                        self.note_mutation(st, o.loc, s)
                        continue
                    if isinstance(c, ListC) and isinstance(k, int) and c.base is None:
                        it = list(c.items)
                        del it[k]
                        st.heap[o.loc] = ListC(it)
                        self.note_mutation(st, o.loc, s)
                        continue
                    if isinstance(c, ListC) and isinstance(k, SliceV) and c.base is None:
                        it = list(c.items)
                        del it[self.pyslice(k, s)]
                        st.heap[o.loc] = ListC(it)
                        self.note_mutation(st, o.loc, s)
                        continue
                    if isinstance(c, ListC) and c.base is not None and not (isinstance(k, SliceV) and k.a is None and k.b is None):
                        self.note_mutation(st, o.loc, s)
                        self.event(st, "dropped", c.base.label, "del", "", o.loc)
                        continue
                    if isinstance(c, ListC) and isinstance(k, SliceV) and k.a is None and k.b is None and k.c in (None, 1, -1):
                        self.note_mutation(st, o.loc, s)
                        st.heap[o.loc] = ListC(())
                        continue
                if isinstance(o, Opq):
                    self.event(st, "setitem-opaque", o, "del", None)
                    continue
                self.unsupported("del", s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, env)
                self.setattr(o, t.attr, UNBOUND, st, t)
        return self.nxt(st)

    def s_Assert(self, s, st, env):
        c = self.truth(self.eval(s.test, st, env), st, s)
        self.guard(st, c, "AssertionError", "assert " + ast.unparse(s.test), s)
        return self.nxt(st)

    def guard(self, st, ok, exc, msg, node):
        """continue only where ok holds; record the raise elsewhere"""
        bad = b_and(st.pc, b_not(ok))
        if bad is not False:
            self.record_raise(bad, exc, msg, node, st)
            st.pc = b_and(st.pc, ok)
            if st.pc is False:
                raise Dead()

    def record_raise(self, pc, exc, msg, node, st):
        mod, fn, line = self.where(node)
        self.raises.append((pc, exc, mod, fn, line, msg))
        if self.raise_states is not None:
            self.raise_states.append(State(dict(st.heap), pc, st.events))
        if self.try_stack:
            s2 = State(dict(st.heap), pc, st.events)
            self.try_stack[-1].append((exc, s2))

    try_stack = []

    def raise_(self, st, exc, msg, node):
        self.record_raise(st.pc, exc, msg, node, st)
        st.pc = False
        raise Dead()

    def s_Raise(self, s, st, env):
        name = "Exception"
        msg = ""
        if s.exc is not None:
            v = s.exc
            if isinstance(v, ast.Call):
                name = ast.unparse(v.func)
                msg = ast.unparse(v)
            else:
                name = ast.unparse(v)
        self.raise_(st, name, msg, s)

    def s_If(self, s, st, env):
        c = self.truth(self.eval(s.test, st, env), st, s)
        return self.branch(st, c, lambda t: self.block(s.body, t, env), lambda t: self.block(s.orelse, t, env))

    def branch(self, st, c, f, g):
        c = G.restrict(c, st.pc) if st.pc is not False else c
        if c is True:
            return f(st)
        if c is False:
            return g(st)
        a = st.fork(c)
        b = st.fork(b_not(c))
        outs = []
        if a.pc is not False:
            outs += f(a)
        if b.pc is not False:
            outs += g(b)
        return self.join(outs)

    def join(self, outs):
        nx = [o for o in outs if o.kind == "next"]
        rest = [o for o in outs if o.kind != "next"]
        if len(nx) > 1:
            m = merge([o.state for o in nx])
            nx = [Outcome("next", m)] if m is not None else []
        return rest + nx

    def s_With(self, s, st, env):
        return self.with_items(list(s.items), s.body, st, env)

    def with_items(self, items, body, st, env):
        if not items:
            return self.block(body, st, env)
        it, rest = items[0], items[1:]
        v = self.eval(it.context_expr, st, env)
        if isinstance(v, self.models.GenCM):
            return self.with_generator(v, it, rest, body, st, env)
        c = st.heap[v.loc] if isinstance(v, Ref) else None
        if isinstance(c, InstC) and isinstance(c.cls, Cls) and c.cls.lookup("__enter__") is not None:
            got = self.call(Bound(c.cls.lookup("__enter__"), v), [], {}, st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, got, st, env)
            ex = c.cls.lookup("__exit__")
            outs = self.with_items(rest, body, st, env)
            if ex is None:
                return outs
            res = []
            for o in outs:
                try:
                    self.call(Bound(ex, v), [None, None, None], {}, o.state, it.context_expr)
                except Dead:
                    continue
                if o.state.pc is not False:
                    res.append(o)
            return res
        self.event(st, "with", v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v if not isinstance(v, Opq) else Opq("enter", (v,)), st, env)
        return self.with_items(rest, body, st, env)

    def with_generator(self, cm, it, rest, body, st, env):
        """with-block over a generator based context manager: the part of the generator before
        its only yield, the body, then the part after"""
        f = cm.func
        stmts, post = list(f.node.body), []
        pre = []
        while stmts:
            x = stmts.pop(0)
            if isinstance(x, ast.Try) and not x.handlers and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(x)):
                stmts = list(x.body) + list(x.orelse) + list(x.finalbody) + stmts
                continue
            y = x.value if isinstance(x, (ast.Expr, ast.Assign)) and isinstance(x.value, ast.Yield) else None
            if y is not None:
                post = stmts
                break
            pre.append(x)
        else:
            self.unsupported("context manager without a top-level yield", f.node)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for x in pre + post for n in ast.walk(x)):
            self.unsupported("context manager with several yields", f.node)
        genv = self.alloc(st, EnvC(self.bind_call(f, cm.args, cm.kw, st, it.context_expr)[0], f.env))
        nx = [o for o in self.block(pre, st, genv) if o.kind == "next"]
        if not nx:
            return []
        st = nx[0].state
        for o in nx[1:]:
            st = merge2(st, o.state)
        v = self.eval(y.value, st, genv) if y.value is not None else None
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st, env)
        res = []
        for o in self.with_items(rest, body, st, env):
            for q in self.block(post, o.state, genv):
                if q.state.pc is not False:
                    res.append(Outcome(o.kind, q.state, o.value))
        return res

    def s_Try(self, s, st, env):
        start = st.fork()
        self.try_stack = self.try_stack + [[]]
        nr = len(self.raises)
        outs = self.block(s.body, st, env)
        caught = self.try_stack[-1]
        self.try_stack = self.try_stack[:-1]
        res = []
        for o in outs:
            if o.kind == "next" and s.orelse:
                res += self.block(s.orelse, o.state, env)
            else:
                res.append(o)
        if s.handlers and caught:
            names = [ast.unparse(h.type) if h.type is not None else None for h in s.handlers]
            kept = []
            for exc, es in caught:
                for h, nm in zip(s.handlers, names):
                    if nm is None or exc in nm or "Exception" in nm.split(",")[0].strip("() "):
                        if h.name:
                            self.setvar(es, env, h.name, Opq("exc", (exc,)))
                        res += self.block(h.body, es, env)
                        break
                else:
                    kept.append((exc, es))
            # handled raises are not escapes
            self.raises = self.raises[:nr] + [r for r in self.raises[nr:] if any(r[0] is es.pc for _, es in kept)]
            if self.try_stack:
                self.try_stack[-1].extend(kept)
        elif self.try_stack:
            self.try_stack[-1].extend(caught)
        if s.finalbody:
            fin = []
            for o in res:
                for o2 in self.block(s.finalbody, o.state, env):
                    fin.append(Outcome(o.kind, o2.state, o.value) if o2.kind == "next" else o2)
            res = fin
        return self.join(res)

    s_TryStar = s_Try

    def s_Match(self, s, st, env):
        subj = self.eval(s.subject, st, env)

        def cases(i, t):
            if i == len(s.cases):
                return self.nxt(t)
            c = s.cases[i]
            cond = self.match_pat(c.pattern, subj, t, env)
            if c.guard is not None:
                cond = b_and(cond, self.truth(self.eval(c.guard, t, env), t, c.guard))
            return self.branch(t, cond, lambda u: self.block(c.body, u, env), lambda u: cases(i + 1, u))

        return cases(0, st)

    def match_pat(self, p, subj, st, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", subj, self.eval(p.value, st, env), st, p), st, p)
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", subj, p.value, st, p), st, p)
        if isinstance(p, ast.MatchAs):
            c = True
            if p.pattern is not None:
                c = self.match_pat(p.pattern, subj, st, env)
            if p.name:
                self.setvar(st, env, p.name, subj)
            return c
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                c = b_or(c, self.match_pat(q, subj, st, env))
            return c
        self.unsupported("match pattern", p)

    # ----------------------------------------------------------------- loops
    def s_For(self, s, st, env):
        it = self.eval(s.iter, st, env)
        items = self.try_iterate(it, st, s)
        if items is None:
            return self.symbolic_loop(s, st, env, it)
        if len(items) > self.MAX_UNROLL:
            return self.symbolic_loop(s, st, env, it)
        pending, brk = [], []
        cur = st
        for x in items:
            self.assign(s.target, x, cur, env)
            outs = self.block(s.body, cur, env)
            nxts = []
            for o in outs:
                if o.kind in ("next", "continue"):
                    nxts.append(o.state)
                elif o.kind == "break":
                    brk.append(o.state)
                else:
                    pending.append(o)
            cur = merge(nxts)
            if cur is None:
                break
        if cur is not None and s.orelse:
            for o in self.block(s.orelse, cur, env):
                if o.kind == "next":
                    brk.append(o.state)
                else:
                    pending.append(o)
        elif cur is not None:
            brk.append(cur)
        m = merge(brk)
        if m is not None:
            pending.append(Outcome("next", m))
        return pending

    def s_While(self, s, st, env):
        # concrete unrolling while the condition stays decided
        pending, brk = [], []
        cur = st
        n = 0
        while True:
            probe = cur.fork()
            nr, nu = len(self.raises), len(self.unbound)
            c = self.truth(self.eval(s.test, probe, env), probe, s)
            c = G.restrict(c, probe.pc)
            if c is False:
                cur = probe
                break
            if c is not True or (n == 0 and isinstance(s.test, ast.Constant)) or n > self.MAX_UNROLL:
                if n > 0 and c is not True:
                    # symbolic exits after concrete prefix: continue unrolling a few rounds
                    pass
                del self.raises[nr:]
                del self.unbound[nu:]
                if self.peel:
                    b, p = self.first_passes(s, cur, env)
                    brk += b
                    pending += p
                    cur = None
                    break
                outs = self.symbolic_loop(s, cur, env, None)
                for o in outs:
                    if o.kind == "next":
                        brk.append(o.state)
                    else:
                        pending.append(o)
                cur = None
                break
            n += 1
            ne = len(probe.events)
            outs = self.block(s.body, probe, env)
            if self.peel and n >= self.peel and any(e[1] == "integ" for o in outs for e in o.state.events[ne:]):
                outs = [o for o in outs if o.kind not in ("next", "continue")]      # later passes are left out
            nxts = []
            for o in outs:
                if o.kind in ("next", "continue"):
                    nxts.append(o.state)
                elif o.kind == "break":
                    brk.append(o.state)
                else:
                    pending.append(o)
            cur = merge(nxts)
            if cur is None:
                break
        if cur is not None:
            if s.orelse:
                for o in self.block(s.orelse, cur, env):
                    if o.kind == "next":
                        brk.append(o.state)
                    else:
                        pending.append(o)
            else:
                brk.append(cur)
        m = merge(brk)
        if m is not None:
            pending.append(Outcome("next", m))
        return pending

    def first_passes(self, s, st, env):
        """the first self.peel passes of a loop, exactly; later ones are left out"""
        brk, pending = [], []
        cur = st
        for k in range(self.peel):
            c = self.truth(self.eval(s.test, cur, env), cur, s)
            c = G.restrict(c, cur.pc)
            if c is not True:
                brk.append(cur.fork(b_not(c)))
            if c is False:
                break
            body = cur.fork(c)
            self.passes.append((k, s, body.pc))
            nxts = []
            for o in self.block(s.body, body, env):
                if o.state.pc is False:
                    continue
                if o.kind in ("next", "continue"):
                    nxts.append(o.state)
                elif o.kind == "break":
                    brk.append(o.state)
                else:
                    pending.append(o)
            cur = merge(nxts)
            if cur is None:
                break
        return [b for b in brk if b.pc is not False], pending

    def symbolic_loop(self, s, st, env, it):
        from .loops import summarise
        return summarise(self, s, st, env, it)

    def s_Break(self, s, st, env):
        return [Outcome("break", st)]

    def s_Continue(self, s, st, env):
        return [Outcome("continue", st)]

    # ------------------------------------------------------------- variables
    def getvar(self, st, env, name, node=None):
        e = env
        c = st.heap[e]
        first = True
        while True:
            if isinstance(c, EnvC):
                if first and c.glob and ("g", name) in c.glob:
                    e2 = e
                    while st.heap[e2].parent is not None:
                        e2 = st.heap[e2].parent
                    c = st.heap[e2]
                    v = c.vars.get(name)
                    break
                v = c.vars.get(name)
                if v is not None or name in c.vars:
                    break
                if c.parent is None:
                    v = UNBOUND
                    if name in BUILTINS:
                        return Builtin(name)
                    if name in EXCEPTIONS:
                        return Builtin(name)
                    if name == "NotImplemented":
                        return NOTIMPL
                    if name in ("__name__", "__file__", "__doc__"):
                        return name
                    break
                c = st.heap[c.parent]
                first = False
            else:
                self.unsupported("gated environment", node)
        return self.check_bound(v, name, st, node)

    def check_bound(self, v, name, st, node):
        if v is UNBOUND:
            self.record_unbound(st.pc, name, node)
            self.raise_(st, "UnboundLocalError", name, node)
        if isinstance(v, Node):
            bad = lift(lambda x: x is UNBOUND, v)
            if bad is not False:
                b = b_and(st.pc, bad)
                if b is not False:
                    self.record_unbound(b, name, node)
                    self.record_raise(b, "UnboundLocalError", name, node, st)
                    st.pc = b_and(st.pc, b_not(bad))
                    if st.pc is False:
                        raise Dead()
                v = G.restrict(v, b_not(bad))
        return v

    def record_unbound(self, pc, name, node):
        mod, fn, line = self.where(node)
        self.unbound.append((pc, name, mod, fn, line))

    def setvar(self, st, env, name, val):
        c = st.heap[env]
        if c.glob:
            if ("g", name) in c.glob:
                e2 = env
                while st.heap[e2].parent is not None:
                    e2 = st.heap[e2].parent
                return self._setvar(st, e2, name, val)
            if ("n", name) in c.glob:
                e2 = c.parent
                while e2 is not None and name not in st.heap[e2].vars:
                    e2 = st.heap[e2].parent
                if e2 is not None:
                    return self._setvar(st, e2, name, val)
        self._setvar(st, env, name, val)

    def _setvar(self, st, env, name, val):
        c = st.heap[env]
        v = dict(c.vars)
        v[name] = val
        st.heap[env] = EnvC(v, c.parent, c.glob)

    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            self.setvar(st, env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, env)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, env)
            k = self.eval_index(t.slice, st, env)
            self.setitem(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, env)
        else:
            self.unsupported("assignment target", t)

    def unpack(self, t, v, st, env):
        n = len(t.elts)
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
        items = self.try_iterate(v, st, t)
        if items is None:
            if star is None and isinstance(v, (Opq, Poly, Node)):
                items = [self.opq_item(v, i) for i in range(n)]
            else:
                self.unsupported("unpacking of unknown iterable", t)
        if star is None:
            if len(items) != n:
                self.raise_(st, "ValueError", f"cannot unpack {len(items)} values into {n}", t)
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, env)
        else:
            k = n - 1 - star
            for e, x in zip(t.elts[:star], items[:star]):
                self.assign(e, x, st, env)
            mid = items[star:len(items) - k]
            self.assign(t.elts[star].value, self.new_list(st, mid), st, env)
            for e, x in zip(t.elts[star + 1:], items[len(items) - k:]):
                self.assign(e, x, st, env)

    def opq_item(self, v, i):
        return lift(lambda x: Opq("item", (x, i)), v)

    # ------------------------------------------------------------ iteration
    def try_iterate(self, v, st, node=None):
        """list of element values, or None when not statically enumerable"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, ArrRef):
            e = self.arr_elems(st, v)
            if len(v.shape) == 1:
                return list(e)
            if len(v.shape) == 0:
                return None
            step = len(v.idx) // v.shape[0] if v.shape[0] else 0
            return [ArrRef(v.loc, v.shape[1:], v.idx[i * step:(i + 1) * step]) for i in range(v.shape[0])]
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, IterC):
                st.heap[v.loc] = IterC(())
                return list(c.items)
            if isinstance(c, ListC):
                if c.base is not None:
                    return None
                return list(c.items)
            if isinstance(c, InstC):
                m = self.dunder(v, "__iter__", st)
                return self.try_iterate(self.call(m, [], {}, st, node), st, node) if m is not None else None
            if isinstance(c, DictC):
                return [k for k, _ in self.models.present_items(self, c, st, node)]
            if isinstance(c, Node):
                ls = G.leaves(c)
                if all(isinstance(l, ListC) and l.base is None and len(l.items) == len(ls[0][0].items) for l, _ in ls):
                    return [lift(lambda x, i=i: x.items[i], c) for i in range(len(ls[0][0].items))]
            return None
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Node):
            parts = G.leaves(v)
            seqs = []
            for l, c in parts:
                c = b_and(c, st.pc)
                if c is False:
                    continue
                s = self.try_iterate(l, st, node)
                if s is None:
                    return None
                seqs.append((c, s))
            if not seqs or any(len(s) != len(seqs[0][1]) for _, s in seqs):
                return None
            out = []
            for i in range(len(seqs[0][1])):
                x = seqs[-1][1][i]
                for c, s in reversed(seqs[:-1]):
                    x = merge_val(c, s[i], x)
                out.append(x)
            return out
        return None

    def iterate(self, v, st, node=None):
        r = self.try_iterate(v, st, node)
        if r is None:
            self.unsupported(f"iteration over {v!r}"[:160], node)
        return r

    # ----------------------------------------------------------- expressions
    def eval(self, e, st, env):
        meth = getattr(self, "e_" + type(e).__name__, None)
        if meth is None:
            self.unsupported(f"expression {type(e).__name__}", e)
        return meth(e, st, env)

    def e_Constant(self, e, st, env):
        v = e.value
        if isinstance(v, float):
            return lit_float(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, complex):
            return Opq("complex", (str(v),))
        if isinstance(v, bytes):
            return str(v)
        return v

    def e_Name(self, e, st, env):
        return self.getvar(st, env, e.id, e)

    def e_NamedExpr(self, e, st, env):
        v = self.eval(e.value, st, env)
        self.assign(e.target, v, st, env)
        return v

    def e_Tuple(self, e, st, env):
        return Tup(self.elts(e.elts, st, env))

    def elts(self, elts, st, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.eval(x.value, st, env), st, x)
            else:
                out.append(self.eval(x, st, env))
        return out

    def e_List(self, e, st, env):
        return self.new_list(st, self.elts(e.elts, st, env))

    def e_Set(self, e, st, env):
        return Tup(self.elts(e.elts, st, env))

    def e_Dict(self, e, st, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, st, env)
                c = st.heap[o.loc]
                d.update(c.items)
                continue
            kk = self.eval(k, st, env)
            d[vkey(kk)] = (kk, self.eval(v, st, env))
        return Ref(self.alloc(st, DictC(d)))

    def e_Lambda(self, e, st, env):
        return self.make_func(e, st, env)

    def e_JoinedStr(self, e, st, env):
        parts = []
        conc = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, st, env)
                if v.format_spec is not None:
                    fs = self.eval(v.format_spec, st, env)
                    if isinstance(x, (str, int)) and isinstance(fs, str) and v.conversion == -1:
                        try:
                            parts.append(format(x, fs))
                            continue
                        except ValueError:
                            pass
                    parts.append(Opq("fmt", (x, fs if isinstance(fs, (str, Opq)) else str(fs))))
                    conc = False
                elif isinstance(x, (str, int)) and v.conversion == -1:
                    parts.append(str(x))
                else:
                    parts.append(Opq("fmt", (x, str(v.conversion))))
                    conc = False
        if conc:
            return "".join(parts)
        return Opq("fstring", parts)

    def e_FormattedValue(self, e, st, env):
        return self.eval(e.value, st, env)

    def e_Starred(self, e, st, env):
        return self.eval(e.value, st, env)

    def e_Attribute(self, e, st, env):
        return self.getattr(self.eval(e.value, st, env), e.attr, st, e)

    def e_Subscript(self, e, st, env):
        o = self.eval(e.value, st, env)
        k = self.eval_index(e.slice, st, env)
        return self.getitem(o, k, st, e)

    def eval_index(self, s, st, env):
        if isinstance(s, ast.Slice):
            return SliceV(*(self.eval(x, st, env) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return Tup(self.eval_index(x, st, env) for x in s.elts)
        return self.eval(s, st, env)

    e_Slice = lambda self, e, st, env: self.eval_index(e, st, env)

    def e_IfExp(self, e, st, env):
        c = self.truth(self.eval(e.test, st, env), st, e)
        return self.choose(st, c, lambda s: self.eval(e.body, s, env), lambda s: self.eval(e.orelse, s, env))

    def choose(self, st, c, f, g):
        c = G.restrict(c, st.pc)
        if c is True:
            return f(st)
        if c is False:
            return g(st)
        a, b = st.fork(c), st.fork(b_not(c))
        va = vb = None
        la = lb = True
        try:
            va = f(a)
        except Dead:
            la = False
        try:
            vb = g(b)
        except Dead:
            lb = False
        if a.pc is False:
            la = False
        if b.pc is False:
            lb = False
        if la and lb:
            sel = G.restrict(a.pc, b_or(a.pc, b.pc))
            st.assign(merge2(a, b))
            return merge_val(sel if sel is not True else a.pc, va, vb)
        if la:
            st.assign(a)
            return va
        if lb:
            st.assign(b)
            return vb
        st.pc = False
        raise Dead()

    def e_BoolOp(self, e, st, env):
        is_and = isinstance(e.op, ast.And)

        def rec(vals, s):
            v = self.eval(vals[0], s, env)
            if len(vals) == 1:
                return v
            c = self.truth(v, s, e)
            if is_and:
                return self.choose(s, c, lambda t: rec(vals[1:], t), lambda t: v)
            return self.choose(s, c, lambda t: v, lambda t: rec(vals[1:], t))

        return rec(e.values, st)

    def e_UnaryOp(self, e, st, env):
        v = self.eval(e.operand, st, env)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v, st, e))
        return self.unary(e.op, v, st, e)

    def unary(self, op, v, st, node):
        if isinstance(v, ArrRef):
            return self.new_array(st, v.shape, [self.unary(op, x, st, node) for x in self.arr_elems(st, v)])
        if isinstance(v, Node) and any(isinstance(l, ArrRef) for l, _ in G.leaves(v)):
            return self.case(v, st, lambda o, s: self.unary(op, o, s, node))

        m = self.dunder(v, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}.get(type(op).__name__), st)
        if m is not None:
            return self.call(m, [], {}, st, node)

        def f(x):
            if isinstance(op, ast.USub):
                if isinstance(x, bool):
                    return -int(x)
                if isinstance(x, int):
                    return -x
                if x is NAN:
                    return NAN
                return -self.scalar(x)
            if isinstance(op, ast.UAdd):
                return x
            if isinstance(op, ast.Invert):
                if isinstance(x, bool):
                    return not x
                if isinstance(x, int):
                    return ~x
                return Opq("invert", (x,))
            return Opq("unary", (x,))

        return lift(f, v)

    def e_BinOp(self, e, st, env):
        a = self.eval(e.left, st, env)
        b = self.eval(e.right, st, env)
        return self.binop(e.op, a, b, st, e)

    def scalar(self, x):
        """leaf -> Poly"""
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            return T.const(int(x))
        if isinstance(x, int):
            return T.const(x)
        if isinstance(x, Opq):
            return T.atom_poly(T.fn_atom("opq", (x,)))
        raise TypeError(x)

    def is_num(self, x):
        return isinstance(x, (Poly, int, Opq)) or x is NAN

    def str_format(self, f, v, st):
        """text % values"""
        items = list(v.items) if isinstance(v, Tup) else [v]
        if all(isinstance(x, (str, int)) for x in items):
            try:
                return f % tuple(items)
            except (TypeError, ValueError):
                pass
        return Opq("strMod", (f,) + tuple(self.models.snapshot(self, st, x) for x in items))

    def binop(self, op, a, b, st, node=None):
        name = type(op).__name__ if isinstance(op, ast.AST) else op
        # containers
        for v in (a, b):
            if isinstance(v, Node) and any(l is None or isinstance(l, (ArrRef, Ref, Tup, str)) for l, _ in G.leaves(v)):
                if v is a:
                    return self.case(a, st, lambda o, s: self.binop(op, o, b, s, node))
                return self.case(b, st, lambda o, s: self.binop(op, a, o, s, node))
        if a is None or b is None:
            self.raise_(st, "TypeError", f"unsupported operand for {name}: None", node)
        if isinstance(a, str) and name == "Mod":
            return self.str_format(a, b, st)
        if isinstance(a, ArrRef) or isinstance(b, ArrRef):
            return self.models.arr_binop(self, name, a, b, st, node)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.ref_binop(name, a, b, st, node)
        if isinstance(a, Tup) or isinstance(b, Tup):
            if name == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if name == "Mult":
                t, n = (a, b) if isinstance(a, Tup) else (b, a)
                if isinstance(n, int):
                    return Tup(t.items * n)
            self.unsupported(f"tuple operator {name}", node)
        if isinstance(a, str) or isinstance(b, str) or name == "Add" and (is_text(a) or is_text(b)):
            if name == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if name == "Mult" and isinstance(a, int):
                return a * b
            if name == "Mult" and isinstance(b, int):
                return a * b
            return Opq("str" + name, (a, b))
        if self.div_log is not None and name in ("Div", "FloorDiv", "Mod") and node is not None and st is not None:
            self.div_log.append((st.pc, a, b, self.jit > 0) + self.where(node))
        return lift(lambda x, y: self.arith(name, x, y, st, node), a, b)

    def ref_binop(self, name, a, b, st, node):
        ca = st.heap[a.loc] if isinstance(a, Ref) else None
        cb = st.heap[b.loc] if isinstance(b, Ref) else None
        if isinstance(ca, InstC) or isinstance(cb, InstC):
            dn = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv",
                  "BitOr": "or", "BitAnd": "and"}.get(name)
            if isinstance(ca, InstC) and ca.cls.lookup(f"__{dn}__"):
                return self.call(self.getattr(a, f"__{dn}__", st, node), [b], {}, st, node)
            if isinstance(cb, InstC) and cb.cls.lookup(f"__r{dn}__"):
                return self.call(self.getattr(b, f"__r{dn}__", st, node), [a], {}, st, node)
            self.unsupported("operator on instance", node)
        if name == "Add" and isinstance(ca, ListC) and isinstance(cb, ListC):
            if cb.base is None:
                return Ref(self.alloc(st, ListC(ca.items + cb.items, ca.base)))
        if name == "Mult":
            r, n = (ca, b) if isinstance(ca, ListC) else (cb, a)
            if isinstance(n, int) and isinstance(r, ListC) and r.base is None:
                return self.new_list(st, r.items * n)
        if name == "BitOr" and isinstance(ca, DictC) and isinstance(cb, DictC):
            d = dict(ca.items)
            d.update(cb.items)
            return Ref(self.alloc(st, DictC(d)))
        self.unsupported(f"operator {name} on list/dict", node)

    def arith(self, name, x, y, st=None, node=None):
        if x is NAN or y is NAN:
            return NAN
        if isinstance(x, bool):
            if isinstance(y, bool) and name in ("BitAnd", "BitOr", "BitXor"):
                return {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[name]
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if isinstance(x, Long) and name in ("FloorDiv", "Div") and Long.big(y) is not None:
            return ite(Long.beyond(Long.big(y)), 2, x // y if name == "FloorDiv" and isinstance(y, int) else self.scalar(int(x)) / self.scalar(y))
        if isinstance(x, int) and isinstance(y, int):
            if name == "Add":
                return x + y
            if name == "Sub":
                return x - y
            if name == "Mult":
                return x * y
            if name == "FloorDiv" and y:
                return x // y
            if name == "Mod" and y:
                return x % y
            if name == "Pow" and y >= 0:
                return x ** y
            if name == "BitAnd":
                return x & y
            if name == "BitOr":
                return x | y
            if name == "LShift":
                return x << y
            if name == "RShift":
                return x >> y
        if not self.is_num(x) or not self.is_num(y):
            return Opq(name, (x, y))
        p, q = self.scalar(x), self.scalar(y)
        if name == "Add":
            return self._inf_guard(p + q)
        if name == "Sub":
            return self._inf_guard(p - q)
        if name == "Mult":
            return p * q
        if name == "Div":
            return p / q
        if name == "Pow":
            return T.gpow(p, q)
        if name == "Mod":
            return T.fmod(p, q)
        if name == "FloorDiv":
            return T.ffloor(p / q)
        return Opq(name, (x, y))

    def _inf_guard(self, p):
        if len(p.terms) > 1:
            m = ((T.sym_id(T.INF), 1),)
            c = p.terms.get(m)
            if c is not None:
                return T.INF if c > 0 else -T.INF
        return p

    # ----------------------------------------------------------- comparisons
    def e_Compare(self, e, st, env):
        left = self.eval(e.left, st, env)
        res = None
        if len(e.ops) == 1:
            right = self.eval(e.comparators[0], st, env)
            return self.compare(type(e.ops[0]).__name__, left, right, st, e)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, env)
            acc = b_and(acc, self.truth(self.compare(type(op).__name__, left, right, st, e), st, e))
            left = right
        return acc

    def compare(self, op, a, b, st, node=None):
        if op in ("Is", "IsNot"):
            r = lift(self.leaf_is, a, b)
            return r if op == "Is" else b_not(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st, node)
            return r if op == "In" else b_not(r)
        if isinstance(a, ArrRef) or isinstance(b, ArrRef):
            return self.models.arr_compare(self, op, a, b, st, node)
        for v in (a, b):
            if isinstance(v, Node) and any(isinstance(l, (ArrRef, Ref, Tup)) for l, _ in G.leaves(v)):
                if v is a:
                    return self.case(a, st, lambda o, s: self.compare(op, o, b, s, node))
                return self.case(b, st, lambda o, s: self.compare(op, a, o, s, node))
        if isinstance(a, (Ref, Tup)) or isinstance(b, (Ref, Tup)):
            for x, y, sw in ((a, b, False), (b, a, True)):
                dn = {"Eq": "eq", "NotEq": "ne", "Lt": "gt" if sw else "lt", "LtE": "ge" if sw else "le", "Gt": "lt" if sw else "gt", "GtE": "le" if sw else "ge"}[op]
                m = self.dunder(x, f"__{dn}__", st)
                if m is not None:
                    return self.call(m, [y], {}, st, node)
                m = self.dunder(x, "__eq__", st) if op == "NotEq" else None
                if m is not None:
                    return b_not(self.truth(self.call(m, [y], {}, st, node), st, node))
            if op in ("Eq", "NotEq"):
                r = self.seq_eq(a, b, st, node)
                return r if op == "Eq" else b_not(r)
            ia, ib = self.try_iterate(a, st), self.try_iterate(b, st)
            if ia is not None and ib is not None and len(ia) == len(ib) == 1:
                return self.compare(op, ia[0], ib[0], st, node)
            self.unsupported(f"comparison {op} of containers", node)
        return lift(lambda x, y: self.cmp_leaf(op, x, y), a, b)

    def seq_eq(self, a, b, st, node):
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        ia, ib = (st.heap[x.loc] if isinstance(x, Ref) else None for x in (a, b))
        if isinstance(ia, InstC) or isinstance(ib, InstC):
            dc = getattr(ia.cls, "dcfields", None) if isinstance(ia, InstC) and isinstance(ib, InstC) and ia.cls is ib.cls else None
            if dc is None:
                return False
            r = True
            for k, _ in dc:
                r = b_and(r, self.truth(self.compare("Eq", ia.attrs[k], ib.attrs[k], st, node), st, node))
            return r
        if isinstance(a, (Ref, Tup)) != isinstance(b, (Ref, Tup)):
            return False
        if isinstance(a, Ref) and isinstance(st.heap[a.loc], ListC) and st.heap[a.loc].base is not None:
            return G.boolvar(("seqeq", vkey(a), vkey(b)))
        ia, ib = self.iterate(a, st, node), self.iterate(b, st, node)
        if len(ia) != len(ib):
            return False
        r = True
        for x, y in zip(ia, ib):
            r = b_and(r, self.truth(self.compare("Eq", x, y, st, node), st, node))
        return r

    def leaf_is(self, x, y):
        if isinstance(x, bool) or isinstance(y, bool):
            return x is y
        if x is None or y is None:
            if isinstance(x, Opq) or isinstance(y, Opq):
                return G.boolvar(("is_none", vkey(x), vkey(y)))
            return x is y
        if isinstance(x, Opq) or isinstance(y, Opq):
            return True if vkey(x) == vkey(y) else G.boolvar(("is", vkey(x), vkey(y)))
        return vkey(x) == vkey(y)

    def cmp_leaf(self, op, x, y):
        if x is NAN or y is NAN:
            return op == "NotEq"
        if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)):
            if isinstance(y, Long) and not isinstance(x, Long) and Long.big(x) is not None:
                x, y, op = y, x, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op)
            if isinstance(x, Long) and op in ("Lt", "LtE", "Gt", "GtE") and Long.big(y) is not None:
                v = Long.beyond(Long.big(y))
                return v if op in ("Gt", "GtE") else b_not(v)
            if isinstance(x, int) and isinstance(y, int):
                return {"Eq": x == y, "NotEq": x != y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
            s = G.sign_of(self._inf_guard(self.scalar(x) - self.scalar(y)))
            f = {"Eq": lambda k: k == 0, "NotEq": lambda k: k != 0, "Lt": lambda k: k < 0, "LtE": lambda k: k <= 0,
                 "Gt": lambda k: k > 0, "GtE": lambda k: k >= 0}[op]
            return lift(f, s)
        if isinstance(x, Opq) or isinstance(y, Opq):
            if op == "NotEq":
                return b_not(self.cmp_leaf("Eq", x, y))
            if op == "Eq" and vkey(x) == vkey(y):
                return True
            if isinstance(x, Opq) and isinstance(y, bool):
                c = G.boolvar(("truth", vkey(x)))
                return c if y else b_not(c)
            if self.is_num(x) and self.is_num(y):
                return lift({"Eq": lambda k: k == 0, "Lt": lambda k: k < 0, "LtE": lambda k: k <= 0,
                             "Gt": lambda k: k > 0, "GtE": lambda k: k >= 0}[op], G.sign_of(self.scalar(x) - self.scalar(y)))
            return G.boolvar(("cmp", op, vkey(x), vkey(y)))
        if op == "Eq":
            return vkey(x) == vkey(y)
        if op == "NotEq":
            return vkey(x) != vkey(y)
        if isinstance(x, str) and isinstance(y, str):
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        raise Unsupported(f"comparison {op} of {x!r} and {y!r}"[:200])

    def contains(self, c, x, st, node):
        if isinstance(c, str):
            return lift(lambda v: (v in c) if isinstance(v, str) else G.boolvar(("in", vkey(v), c)), x)
        if isinstance(c, Ref):
            k = st.heap[c.loc]
            if isinstance(k, DictC):
                r = False
                for kk, vv in k.items.values():
                    hit = self.truth(self.compare("Eq", x, kk, st, node), st, node)
                    present = lift(lambda z: z is not UNBOUND, vv)
                    r = b_or(r, b_and(hit, present))
                return r
        m = self.dunder(c, "__contains__", st)
        if m is not None:
            return self.truth(self.call(m, [x], {}, st, node), st, node)
        items = self.try_iterate(c, st, node)
        if items is None:
            return lift(lambda a, b: G.boolvar(("in", vkey(a), vkey(b))), x, c)
        r = False
        for it in items:
            r = b_or(r, self.truth(self.compare("Eq", x, it, st, node), st, node))
        return r

    def truth(self, v, st, node=None):
        def f(x):
            if isinstance(x, bool):
                return x
            if isinstance(x, int):
                return x != 0
            if isinstance(x, Poly):
                return lift(lambda k: k != 0, G.sign_of(x))
            if x is None or x is UNBOUND:
                return False
            if x is NAN:
                return True
            if isinstance(x, str):
                return x != ""
            if isinstance(x, Tup):
                return len(x.items) > 0
            if isinstance(x, Ref):
                c = st.heap[x.loc]
                if isinstance(c, ListC):
                    if c.items:
                        return True
                    if c.base is None:
                        return False
                    return G.boolvar(("nonempty", c.base.uid))
                if isinstance(c, DictC):
                    return len(c.items) > 0
                if isinstance(c, InstC):
                    for nm in ("__bool__", "__len__"):
                        m = self.dunder(x, nm, st)
                        if m is not None:
                            return self.truth(self.call(m, [], {}, st, node), st, node)
                    return True
            if isinstance(x, ArrRef):
                if len(x.idx) == 1:
                    return self.truth(self.arr_elems(st, x)[0], st, node)
                self.unsupported("truth value of an array", node)
            if isinstance(x, Opq):
                return G.boolvar(("truth", vkey(x)))
            return True

        return lift(f, v)

    def dunder(self, v, name, st):
        """bound special method of an instance of an analysed class, or None"""
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, InstC) and isinstance(c.cls, Cls):
                m = c.cls.lookup(name)
                if m is not None:
                    return self.bind(m, v, st, None)
        return None

    # -------------------------------------------------------- case splitting
    def case(self, v, st, fn):
        """run fn(leaf, state) for each leaf of a gated value and merge"""
        if not isinstance(v, Node):
            return fn(v, st)
        v = G.restrict(v, st.pc)
        if not isinstance(v, Node):
            return fn(v, st)
        parts = G.leaves(v)
        res = []
        for leaf, c in parts:
            s = st.fork(c)
            if s.pc is False:
                continue
            try:
                r = fn(leaf, s)
            except Dead:
                continue
            if s.pc is not False:
                res.append((s, r))
        if not res:
            st.pc = False
            raise Dead()
        s, r = res[-1]
        for s2, r2 in reversed(res[:-1]):
            sel = G.restrict(s2.pc, b_or(s2.pc, s.pc))
            r = merge_val(sel if sel is not True else s2.pc, r2, r)
            s = merge2(s2, s)
        st.assign(s)
        return r

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, node=None):
        if isinstance(o, Node):
            return self.case(o, st, lambda x, s: self.getattr(x, name, s, node))
        if isinstance(o, Mod):
            v = st.heap[o.env].vars.get(name)
            if v is None and name not in st.heap[o.env].vars:
                m = self.load(o.name + "." + name, st) if self.module_path(o.name + "." + name) else None
                if m is not None:
                    return m
                self.raise_(st, "AttributeError", f"module {o.name} has no attribute {name}", node)
            return self.check_bound(v, name, st, node)
        if isinstance(o, Ext):
            return self.models.ext_value(o.path + "." + name)
        if isinstance(o, Ref):
            c = st.heap[o.loc]
            if isinstance(c, Node):
                return self.case_content(o, c, st, lambda s: self.getattr(o, name, s, node))
            if isinstance(c, InstC):
                return self.inst_getattr(o, c, name, st, node)
            return self.models.obj_attr(self, o, name, st, node)
        if isinstance(o, Cls):
            v = o.lookup(name)
            if v is None:
                if name in ("__name__", "__qualname__"):
                    return o.name
                if name == "_fields" and getattr(o, "ntfields", None) is not None:
                    return Tup(k for k, _ in o.ntfields)
                if name == "_make" and getattr(o, "ntfields", None) is not None:
                    return OpaqueFn("_make", lambda it, s, args, kw: it.instantiate(o, it.iterate(args[0], s), {}, s, node))
                self.raise_(st, "AttributeError", f"{o.name}.{name}", node)
            if isinstance(v, Static):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            return v
        if isinstance(o, Opq):
            if o.name == "super":
                inst, cls = o.args[0], o.args[1]
                for b in cls.bases:
                    if isinstance(b, Cls):
                        v = b.lookup(name)
                        if v is not None:
                            return self.bind(v, inst, st, node)
                return Opq("superattr", (name,))
            return Opq("attr", (o, name))
        if isinstance(o, Func) or isinstance(o, Bound):
            if name in ("py_func",):
                return o
            if name == "__name__":
                return o.name if isinstance(o, Func) else o.func.name
            if name == "__func__":
                return o.func
            return Opq("attr", (repr(o), name))
        return self.models.obj_attr(self, o, name, st, node)

    def case_content(self, ref, content, st, fn):
        res = []
        for leaf, c in G.leaves(content):
            s = st.fork(c)
            if s.pc is False:
                continue
            s.heap[ref.loc] = leaf
            try:
                res.append((s, fn(s)))
            except Dead:
                pass
        res = [(s, r) for s, r in res if s.pc is not False]
        if not res:
            st.pc = False
            raise Dead()
        s, r = res[-1]
        for s2, r2 in reversed(res[:-1]):
            sel = G.restrict(s2.pc, b_or(s2.pc, s.pc))
            r = merge_val(sel if sel is not True else s2.pc, r2, r)
            s = merge2(s2, s)
        st.assign(s)
        return r

    def inst_getattr(self, o, c, name, st, node):
        cv = c.cls.lookup(name) if isinstance(c.cls, Cls) else None
        if isinstance(cv, self.models.CachedProp):
            held = c.attrs.get(name, UNBOUND)

            def fresh(s):
                v = self.call(cv.get, [o], {}, s, node)
                self.setattr(o, name, v, s, node)
                return v
            return self.choose(st, lift(lambda z: z is not UNBOUND, held), lambda s: held, fresh)
        if isinstance(cv, Prop):
            return self.call(cv.get, [o], {}, st, node)
        if name in c.attrs:
            return self.check_bound(c.attrs[name], "." + name, st, node)
        if cv is not None:
            return self.bind(cv, o, st, node)
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return Ref(self.alloc(st, AttrDictC({vkey(k): (k, v) for k, v in c.attrs.items()}, o)))
        om = c.attrs.get("__opaque__")
        if om is not None:
            return Opq("attr", (om, name))
        ga = c.cls.lookup("__getattr__") if isinstance(c.cls, Cls) else None
        if ga is not None:
            return self.call(Bound(ga, o), [name], {}, st, node)
        mod, fn, line = self.where(node)
        self.record_unbound(st.pc, f"{getattr(c.cls, 'name', c.cls)}.{name}", node)
        self.raise_(st, "AttributeError", name, node)

    def bind(self, v, o, st, node):
        if isinstance(v, Static):
            return v.f
        if isinstance(v, ClassM):
            c = st.heap[o.loc]
            return Bound(v.f, c.cls)
        if isinstance(v, Prop):
            return self.call(v.get, [o], {}, st, node)
        if isinstance(v, (Func, OpaqueFn, self.models.Cached)):
            return Bound(v, o)
        return v

    def setattr(self, o, name, v, st, node=None):
        if isinstance(o, Node):
            return self.case(o, st, lambda x, s: self.setattr(x, name, v, s, node))
        if isinstance(o, Ref):
            c = st.heap[o.loc]
            if isinstance(c, Node):
                return self.case_content(o, c, st, lambda s: self.setattr(o, name, v, s, node))
            if isinstance(c, InstC):
                cv = c.cls.lookup(name) if isinstance(c.cls, Cls) else None
                if isinstance(cv, Prop) and not isinstance(cv, self.models.CachedProp):
                    if cv.set is None:
                        self.raise_(st, "AttributeError", f"can't set {name}", node)
                    self.call(cv.set, [o, v], {}, st, node)
                    return None
                a = dict(c.attrs)
                a[name] = v
                st.heap[o.loc] = InstC(c.cls, a)
                self.note_mutation(st, o.loc, node)
                if o.loc in self.watch:
                    self.event(st, "setattr", self.watch[o.loc], name, v)
                return None
        if isinstance(o, Mod):
            self._setvar(st, o.env, name, v)
            return None
        if isinstance(o, Cls):
            self.event(st, "setclassattr", o.qual, name)
            o.attrs[name] = v
            return None
        self.event(st, "setattr-opaque", o, name, v)
        return None

    # -------------------------------------------------------------- indexing
    def as_index(self, k):
        if isinstance(k, Poly):
            c = k.const()
            if c is not None and c.denominator == 1:
                return int(c)
        if isinstance(k, bool):
            return int(k)
        return k

    def getitem(self, o, k, st, node=None):
        if isinstance(o, Node):
            return self.case(o, st, lambda x, s: self.getitem(x, k, s, node))
        if isinstance(k, Node):
            return self.case(k, st, lambda x, s: self.getitem(o, x, s, node))
        k = self.as_index(k)
        if isinstance(o, ArrRef):
            return self.models.arr_getitem(self, o, k, st, node)
        if isinstance(o, Ref):
            c = st.heap[o.loc]
            if isinstance(c, Node):
                return self.case_content(o, c, st, lambda s: self.getitem(o, k, s, node))
            if isinstance(c, ListC):
                return self.list_get(c, k, st, node)
            if isinstance(c, DictC):
                if isinstance(k, Opq):
                    return Opq("dictget", (o, k))
                kv = c.items.get(vkey(k))
                if kv is None:
                    self.raise_(st, "KeyError", str(k), node)
                return self.check_bound(kv[1], str(k), st, node)
            if isinstance(c, InstC):
                m = c.cls.lookup("__getitem__") if isinstance(c.cls, Cls) else None
                if m is not None:
                    return self.call(Bound(m, o), [k], {}, st, node)
        if isinstance(o, Tup):
            if isinstance(k, int):
                if -len(o.items) <= k < len(o.items):
                    return o.items[k]
                self.raise_(st, "IndexError", str(k), node)
            if isinstance(k, SliceV):
                return Tup(o.items[self.pyslice(k, node, len(o.items))])
        if isinstance(o, str) and isinstance(k, int):
            return o[k]
        if isinstance(o, str) and isinstance(k, SliceV):
            return o[self.pyslice(k, node)]
        if isinstance(o, Ext) and o.path == "numpy.r_" and not isinstance(k, SliceV):
            ks = k.items if isinstance(k, Tup) else (k,)
            if not any(isinstance(x, (SliceV, str)) for x in ks):
                return self.models.f_hstack(self, st, node, [Tup(ks)], {})
        if isinstance(o, Ext) and o.path in ("numpy.mgrid", "numpy.ogrid"):
            r = self.models.grid(self, st, o.path, k, node)
            if r is not None:
                return r
        if isinstance(o, (Opq, Ext)):
            if isinstance(k, SliceV):
                k = Tup((k.a, k.b, k.c))
            return Opq("item", (o, k))
        if isinstance(o, Poly):
            return Opq("item", (o, k))
        self.unsupported(f"indexing {o!r} with {k!r}"[:200], node)

    def pyslice(self, k, node, n=None):
        r = []
        for x in (k.a, k.b, k.c):
            x = self.as_index(x)
            if x is not None and not isinstance(x, int):
                self.unsupported("symbolic slice", node)
            r.append(x)
        if n in self.long and r[2] in (None, 1):        # a recorded list may be longer than a large constant
            if r[0] is not None and r[0] <= -10:
                r[0] = 1
            if r[1] is not None and r[1] >= 10:
                r[1] = -1
        return slice(*r)

    def list_get(self, c, k, st, node):
        if isinstance(k, int):
            n = len(c.items)
            if c.base is None:
                if -n <= k < n:
                    return c.items[k]
                self.raise_(st, "IndexError", f"{k} of {n}", node)
            if k < 0 and -k <= n:
                return c.items[k]
            if k == -n - 1:
                return lift(lambda x: Opq("listitem", (c.base.label, k, n)) if x is UNBOUND else x, c.base.last)
            return Opq("listitem", (c.base.label, k, n))
        if isinstance(k, SliceV):
            if c.base is None:
                return self.new_list(st, c.items[self.pyslice(k, node, len(c.items))])
            return Opq("listslice", (c.base.label,) + tuple(x for x in (k.a, k.b, k.c)) + c.items)
        return Opq("listitem", (c.base.label if c.base else "list", k) + c.items)

    def setitem(self, o, k, v, st, node=None):
        if isinstance(o, Node):
            return self.case(o, st, lambda x, s: self.setitem(x, k, v, s, node))
        if isinstance(k, Node):
            return self.case(k, st, lambda x, s: self.setitem(o, x, v, s, node))
        k = self.as_index(k)
        if isinstance(o, ArrRef):
            return self.models.arr_setitem(self, o, k, v, st, node)
        if isinstance(o, Ref):
            c = st.heap[o.loc]
            if isinstance(c, Node):
                return self.case_content(o, c, st, lambda s: self.setitem(o, k, v, s, node))
            self.note_mutation(st, o.loc, node)
            if isinstance(c, ListC):
                if isinstance(k, int):
                    n = len(c.items)
                    if c.base is None and -n <= k < n or (k < 0 and -k <= n):
                        it = list(c.items)
                        it[k] = v
                        st.heap[o.loc] = ListC(it, c.base)
                        return None
                if c.base is not None:
                    mod, fn, line = self.where(node)
                    self.mutations.append((f"recorded element of {c.base.label}", mod, fn, line, st.pc))
                if isinstance(k, SliceV) and c.base is None:
                    it = list(c.items)
                    it[self.pyslice(k, node)] = self.iterate(v, st, node)
                    st.heap[o.loc] = ListC(it, None)
                    return None
            if isinstance(c, AttrDictC):
                if not isinstance(k, str):
                    self.unsupported("store into an instance dictionary", node)
                self.setattr(c.owner, k, v, st, node)
            if isinstance(c, DictC):
                d = dict(c.items)
                d[vkey(k)] = (k, v)
                st.heap[o.loc] = AttrDictC(d, c.owner) if isinstance(c, AttrDictC) else DictC(d)
                return None
            if isinstance(c, InstC):
                m = c.cls.lookup("__setitem__") if isinstance(c.cls, Cls) else None
                if m is not None:
                    return self.call(Bound(m, o), [k, v], {}, st, node)
        if isinstance(o, (Tup, str)):
            return self.raise_(st, "TypeError", "item assignment to an immutable sequence", node)
        if isinstance(o, Opq):
            self.event(st, "setitem-opaque", o, k if not isinstance(k, SliceV) else "slice", v)
            return None
        self.unsupported(f"store into {o!r}[{k!r}]"[:200], node)

    # ----------------------------------------------------------------- calls
    def e_Call(self, e, st, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            slf = st.heap[env].vars.get("__self__")
            cls = st.heap[env].vars.get("__cls__")
            return Opq("super", (slf, cls))
        f = self.eval(e.func, st, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.eval(a.value, st, env), st, a)
            else:
                args.append(self.eval(a, st, env))
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, st, env)
                if isinstance(o, Ref) and isinstance(st.heap[o.loc], DictC):
                    for kk, vv in st.heap[o.loc].items.values():
                        kw[kk] = vv
                else:
                    self.unsupported("** of unknown mapping", e)
            else:
                kw[k.arg] = self.eval(k.value, st, env)
        return self.call(f, args, kw, st, e)

    def call(self, f, args, kw, st, node=None):
        if isinstance(f, Node):
            return self.case(f, st, lambda x, s: self.call(x, args, kw, s, node))
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw, st, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, OpaqueFn):
            return f.model(self, st, list(args), dict(kw))
        if isinstance(f, self.models.Cached):
            return self.models.pymore.call_cached(self, f, list(args), kw, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, node)
        if isinstance(f, Static):
            return self.call(f.f, args, kw, st, node)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.path, args, kw, st, node)
        if isinstance(f, Builtin):
            return self.models.call_builtin(self, f.name, args, kw, st, node)
        if isinstance(f, Method):
            return self.models.call_method(self, f, args, kw, st, node)
        if isinstance(f, Ref):
            c = st.heap[f.loc]
            if isinstance(c, InstC):
                m = c.cls.lookup("__call__") if isinstance(c.cls, Cls) else None
                if m is not None:
                    return self.call(Bound(m, f), args, kw, st, node)
        if isinstance(f, self.models.LamFn):
            return f.apply(self, st, args, kw, node)
        if isinstance(f, self.models.Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.func, list(f.args) + list(args), k2, st, node)
        if isinstance(f, Opq):
            r = Opq("call", (f,) + tuple(args) + tuple(x for k in sorted(kw) for x in (k, kw[k])))
            if self.snap_calls:
                sn = lambda v: self.models.contents_of(self, st, v)
                self.event(st, "call", f, tuple(args), dict(kw), ([sn(x) for x in args], {k: sn(x) for k, x in kw.items()}))
            else:
                self.event(st, "call", f, tuple(args), dict(kw))
            return r
        if f is None or isinstance(f, (int, str, Poly, Tup)):
            self.raise_(st, "TypeError", f"{f!r} is not callable", node)
        self.unsupported(f"call of {f!r}", node)

    def instantiate(self, cls, args, kw, st, node):
        for b in cls.mro_ext():
            if isinstance(b, Builtin) and b.name in EXCEPTIONS:
                return Opq("exc", (cls.name,))
        q = self.opaque.get(cls.qual)
        if q is not None:
            return q(self, st, list(args), dict(kw))
        nt = getattr(cls, "ntfields", None)
        if nt is not None:
            vals = self.bind_fields(cls, nt, args, kw, st, node)
            return NTup([vals[k] for k, _ in nt], cls)
        if getattr(cls, "members", None) is not None and len(args) == 1:
            for m in cls.members.values():
                if vkey(st.heap[m.loc].attrs["value"]) == vkey(args[0]):
                    return m
        loc = self.alloc(st, InstC(cls, {}))
        o = Ref(loc)
        init = cls.lookup("__init__")
        dc = getattr(cls, "dcfields", None)
        if dc is not None and "__init__" not in cls.attrs:
            st.heap[loc] = InstC(cls, self.bind_fields(cls, dc, args, kw, st, node))
            post = cls.lookup("__post_init__")
            if post is not None:
                self.call(Bound(post, o), [], {}, st, node)
            return o
        if init is not None:
            self.call(Bound(init, o), args, kw, st, node)
        else:
            # dataclass-like: annotated fields
            fields = [k for k in cls.attrs if not k.startswith("__")]
            if args or kw:
                names = self.dataclass_fields(cls)
                attrs = {}
                for n, v in zip(names, args):
                    attrs[n] = v
                for k, v in kw.items():
                    attrs[k] = v
                for n in names:
                    if n not in attrs and n in cls.attrs:
                        attrs[n] = cls.attrs[n]
                st.heap[loc] = InstC(cls, attrs)
        return o

    def bind_fields(self, cls, fields, args, kw, st, node):
        """field values of a dataclass / named tuple constructor call"""
        init = [(k, d) for k, d in fields if not (isinstance(d, self.models.FieldV) and not d.init)]
        names = [k for k, _ in init]
        if len(args) > len(names) or any(k not in names for k in kw) or any(k in kw for k in names[:len(args)]):
            self.raise_(st, "TypeError", f"{cls.name}() arguments", node)
        vals = dict(zip(names, args))
        vals.update(kw)
        out = {}
        for k, d in fields:
            if k in vals:
                out[k] = vals[k]
            elif isinstance(d, self.models.FieldV):
                if d.factory is not UNBOUND:
                    out[k] = self.call(d.factory, [], {}, st, node)
                elif d.default is not UNBOUND:
                    out[k] = d.default
                elif d.init:
                    self.raise_(st, "TypeError", f"{cls.name}() missing {k}", node)
            elif d is not UNBOUND:
                out[k] = d
            else:
                self.raise_(st, "TypeError", f"{cls.name}() missing {k}", node)
        return out

    def dataclass_fields(self, cls):
        tree = self.trees.get(cls.mod)
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef) and n.name == cls.name:
                return [x.target.id for x in n.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        return []

    def bind_call(self, f, args, kw, st, node=None):
        """parameters of a call, as Python binds them"""
        a = f.node.args
        vars = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        if len(args) > len(pos) and a.vararg is None:
            self.raise_(st, "TypeError", f"{f.name}() takes {len(pos)} positional arguments, {len(args)} given", node)
        for n, v in zip(pos, args):
            vars[n] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = Tup(args[len(pos):])
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in vars and k in pos:
                self.raise_(st, "TypeError", f"{f.name}() got multiple values for {k}", node)
            if k in pos or k in kwonly:
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_(st, "TypeError", f"{f.name}() got an unexpected keyword {k}", node)
        if a.kwarg is not None:
            vars[a.kwarg.arg] = Ref(self.alloc(st, DictC({vkey(k): (k, v) for k, v in extra.items()})))
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            if n not in vars:
                vars[n] = d
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in vars and d is not UNBOUND:
                vars[n] = d
        for n in pos + kwonly:
            if n not in vars:
                self.raise_(st, "TypeError", f"{f.name}() missing argument {n}", node)
        return vars, pos

    def call_func(self, f, args, kw, st, node=None):
        q = self.opaque.get(f.qual)
        if q is not None:
            self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
            self.bind_call(f, args, kw, st, node)
            r = q(self, st, list(args), dict(kw))
            if r is not NotImplemented:
                return r
        if self.depth > self.MAX_DEPTH:
            self.unsupported(f"call depth exceeded at {f.qual}", node)
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        vars, pos = self.bind_call(f, args, kw, st, node)
        if f.cls is not None and pos:
            vars["__self__"] = vars.get(pos[0])
            vars["__cls__"] = f.cls
        prefix = f.qual[len(f.mod) + 1:] + "."
        vars["__qualprefix__"] = prefix
        if not isinstance(f.node, ast.Lambda):
            for n in local_names(f.node):
                if n not in vars:
                    vars[n] = UNBOUND
        env = self.alloc(st, EnvC(vars, f.env))
        self.envnode[env] = f.node
        self.depth += 1
        self.cur.append((f.mod, f.name, f.node))
        jit = id(f.node) in self.compiled
        self.jit += jit
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, st, env)
            if is_generator(f.node):
                return self.run_generator(f, st, env)
            outs = self.block(f.node.body, st, env)
        finally:
            self.cur.pop()
            self.depth -= 1
            self.jit -= jit
        rets = []
        for o in outs:
            if o.state.pc is False:
                continue
            if o.kind == "return":
                rets.append((o.state, o.value))
            elif o.kind == "next":
                rets.append((o.state, None))
        if not rets:
            st.pc = False
            raise Dead()
        s, r = rets[-1]
        for s2, r2 in reversed(rets[:-1]):
            sel = G.restrict(s2.pc, b_or(s2.pc, s.pc))
            r = merge_val(sel if sel is not True else s2.pc, r2, r)
            s = merge2(s2, s)
        s.heap.pop(env, None) if not self.captures(f.node) else None
        st.assign(s)
        return r

    def captures(self, node):
        c = getattr(node, "_captures", None)
        if c is None:
            c = any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp, ast.ListComp)) for b in node.body for n in ast.walk(b)) \
                if not isinstance(node, ast.Lambda) else True
            node._captures = c
        return c

    def run_generator(self, f, st, env):
        # eager generator: collect yields in order (straight-line control flow only)
        self._setvar(st, env, "__yield__", self.new_list(st, []))
        outs = self.block(f.node.body, st, env)
        s = merge([o.state for o in outs])
        if s is None:
            st.pc = False
            raise Dead()
        st.assign(s)
        y = st.heap[env].vars["__yield__"]
        items = self.try_iterate(y, st)
        if items is None:
            self.unsupported("generator with conditional yields", f.node)
        return Ref(self.alloc(st, IterC(items)))

    def e_Yield(self, e, st, env):
        v = self.eval(e.value, st, env) if e.value is not None else None
        y = self.getvar(st, env, "__yield__", e)
        c = st.heap[y.loc]
        if isinstance(c, Node):
            self.unsupported("conditional yield", e)
        st.heap[y.loc] = ListC(c.items + (v,), None)
        return None

    def e_YieldFrom(self, e, st, env):
        items = self.iterate(self.eval(e.value, st, env), st, e)
        y = self.getvar(st, env, "__yield__", e)
        c = st.heap[y.loc]
        if isinstance(c, Node):
            self.unsupported("conditional yield", e)
        st.heap[y.loc] = ListC(c.items + tuple(items), None)
        return None

    def e_Await(self, e, st, env):
        self.unsupported("await", e)

    # --------------------------------------------------------- comprehensions
    def comp(self, gens, st, env, emit):
        cenv = self.alloc(st, EnvC({}, env))

        def rec(i, s):
            if i == len(gens):
                emit(s, cenv)
                return
            g = gens[i]
            it = self.eval(g.iter, s, cenv if i else env)
            items = self.iterate(it, s, g.iter)
            for x in items:
                self.assign(g.target, x, s, cenv)
                c = True
                for cond in g.ifs:
                    c = b_and(c, self.truth(self.eval(cond, s, cenv), s, cond))
                c = G.restrict(c, s.pc)
                if c is False:
                    continue
                if c is not True:
                    self.unsupported("comprehension filter not statically decided", cond)
                rec(i + 1, s)

        rec(0, st)

    def e_ListComp(self, e, st, env):
        out = []
        self.comp(e.generators, st, env, lambda s, c: out.append(self.eval(e.elt, s, c)))
        return self.new_list(st, out)

    def e_GeneratorExp(self, e, st, env):
        out = []
        self.comp(e.generators, st, env, lambda s, c: out.append(self.eval(e.elt, s, c)))
        return Ref(self.alloc(st, IterC(out)))

    def e_SetComp(self, e, st, env):
        out = []
        self.comp(e.generators, st, env, lambda s, c: out.append(self.eval(e.elt, s, c)))
        return Tup({vkey(x): x for x in out}.values())

    def e_DictComp(self, e, st, env):
        d = {}

        def emit(s, c):
            k = self.eval(e.key, s, c)
            d[vkey(k)] = (k, self.eval(e.value, s, c))

        self.comp(e.generators, st, env, emit)
        return Ref(self.alloc(st, DictC(d)))


_locals_cache = {}


def local_names(fn):
    r = _locals_cache.get(id(fn))
    if r is not None:
        return r
    names = set()
    outer = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        names.add(w.target.id)
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    names.add((a.asname or a.name).split(".")[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            if isinstance(c, ast.MatchAs) and c.name:
                names.add(c.name)
            walk(c)

    for b in fn.body:
        wrapper = ast.Module(body=[b], type_ignores=[])
        walk(wrapper)
    r = names - outer
    _locals_cache[id(fn)] = r
    return r


def is_generator(fn):
    r = getattr(fn, "_isgen", None)
    if r is None:
        r = False

        def walk(n):
            nonlocal r
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    r = True
                walk(c)

        for b in fn.body:
            walk(ast.Module(body=[b], type_ignores=[]))
        fn._isgen = r
    return r
