"""Loading of the analysed package and construction of abstract problem objects."""
import ast
import os
import sys
from . import terms as T
from . import gated as G
from .gated import Node, Tup, lift, vkey, b_and, b_not
from .interp import Interp, OpaqueFn, Opq, Ref, ArrRef, InstC, ListC, Func, Cls, Unsupported, State

sys.setrecursionlimit(50000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pyqlaw"


class K:
    """canonical non-numeric argument of an uninterpreted application"""
    __slots__ = ("v", "_k")

    def __init__(self, v):
        self.v = v
        self._k = vkey(v)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, K) and o._k == self._k

    def __repr__(self):
        return G.show(self.v)[:200]


def deep(it, st, v):
    """canonical structural key of a value (arrays/lists by content)"""
    if isinstance(v, (ArrRef, Ref)):
        r = it.models.as_nested(it, v, st)
        if r is not None:
            return ("seq", r[0]) + tuple(deep(it, st, x) for x in r[1])
        return ("obj", vkey(v))
    if isinstance(v, Tup):
        return ("seq", (len(v.items),)) + tuple(deep(it, st, x) for x in v.items)
    if isinstance(v, Node):
        r = it.models.as_nested(it, v, st) if any(isinstance(l, (ArrRef, Ref, Tup)) for l, _ in G.leaves(v)) else None
        if r is not None:
            return ("seq", r[0]) + tuple(deep(it, st, x) for x in r[1])
        return ("g", vkey(G.restrict(v, st.pc)))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("g", vkey(T.const(v)))
    return ("g", vkey(v))


def ap(it, st, name, *args):
    """uninterpreted numeric application; arguments by content, not distributed over gates"""
    return T.app(name, extra=tuple(deep(it, st, a) for a in args))


def modules():
    d = os.path.join(REPO, PKG)
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            out.append(PKG + "." + f[:-3])
    return out


def load(opaque=None, only=None):
    it = Interp(REPO, PKG, opaque or {})
    for m in modules() if only is None else only:
        it.load(m)
    return it


class AnchorMissing(Exception):
    pass


def find(it, name, kind=None):
    """resolve a public name of the package: wherever a module defines it"""
    hits = []
    for m in it.modules.values():
        if not m.name.startswith(PKG + "."):
            continue
        v = it.state0.heap[m.env].vars.get(name)
        if v is not None and isinstance(v, (Func, Cls)):
            hits.append(v)
    if not hits:
        raise AnchorMissing(f"anchor {name} not found in {PKG}")
    return hits[0]
