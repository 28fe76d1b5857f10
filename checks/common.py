"""Shared set-up of the formula checks."""
from sa import pkg, terms as T, gated as G
from sa.pkg import load, find, deep, ap, AnchorMissing
from sa.gated import Node, Tup, lift, vkey, b_and, b_not, b_or, ite
from sa.interp import Opq, Ref, ArrRef, ListC, Func, Cls, InstC, OpaqueFn, Unsupported, UNBOUND
from sa.decide import Check, Undecided, differences, refute, num
from sa.terms import Poly
import os

S = T.sym
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class World:
    """the analysed package plus call helpers on a scratch state"""

    def __init__(self, opaque=None, only=None):
        self.it = load(opaque, only)
        for f in sorted(os.listdir(SPEC)):
            if f.endswith(".py") and f != "__init__.py":
                path = os.path.join(SPEC, f)
                self.it.load_source("spec." + f[:-3], open(path).read(), path)

    def fn(self, name):
        return find(self.it, name)

    def spec(self, mod, name):
        """function of an analysed specification module"""
        full = "spec." + mod
        v = self.it.state0.heap[self.it.modules[full].env].vars.get(name)
        if v is None:
            raise Undecided(f"specification {mod}.{name} missing")
        return v

    def state(self):
        self.it.raises.clear()
        return self.it.state0.fork()

    def arr(self, st, items):
        items = list(items)
        return self.it.new_array(st, (len(items),), items)

    def call(self, name, args, st, kw=None):
        f = self.fn(name) if isinstance(name, str) else name
        return self.it.call(f, list(args), dict(kw or {}), st)

    def elems(self, st, v):
        """flat numeric content of a returned array / tuple / list"""
        r = self.it.models.as_nested(self.it, v, st)
        if r is None:
            raise Undecided(f"result is not an array: {str(v)[:200]}")
        return list(r[1])

    def where(self, name):
        f = self.fn(name) if isinstance(name, str) else name
        return f"{f.mod.replace('.', '/')}.py: {f.name} (line {f.node.lineno})"


def orbit_kep():
    """symbols of an elliptic orbit in Keplerian elements"""
    T.reset_facts()
    a, e = S("a", pos=True), S("e", pos=True)
    i, O, o, th = S("i"), S("Omega"), S("omega"), S("theta")
    T.assume_pos(1 - e)
    return a, e, i, O, o, th


def orbit_mee():
    T.reset_facts()
    a = S("a", pos=True)
    f, g, h, k, l = S("f"), S("g"), S("h"), S("k"), S("L")
    T.assume_pos(1 - f**2 - g**2)
    T.assume_pos(1 - T.fsqrt(f**2 + g**2))
    return a, f, g, h, k, l


def history(chk, w, name, args, angle=()):
    """a function of its arguments alone: earlier calls, and what callers did with their results, are of no account; the arguments stay as they are.

    args: scalars and lists (arrays); each scalar in turn is what an earlier call had different."""
    def build(st, v):
        return [w.arr(st, x) if isinstance(x, list) else x for x in v]

    def flat(st, v):
        if isinstance(v, Tup):
            return [y for x in v.items for y in flat(st, x)]
        r = w.it.models.as_nested(w.it, v, st)
        return [v] if r is None else list(r[1])

    wh = w.where(name)
    variants = []
    for i, x in enumerate(args):
        for j in range(len(x)) if isinstance(x, list) else (None,):
            if j is None and not isinstance(x, Poly):
                continue
            v = [list(y) if isinstance(y, list) else y for y in args]
            old = x if j is None else x[j]
            new = S(f"earlier {i} {j}", pos=T.atom_of(old) is not None and bool(getattr(T.atom_of(old), "pos", False))) if isinstance(old, Poly) and T.atom_of(old) is not None else old
            if j is None:
                v[i] = new
            else:
                v[i][j] = new
            variants.append(v)
    st = w.state()
    a = build(st, args)
    fresh = w.call(name, a, st)
    want = flat(st, fresh)
    for x, y in zip(a, args):
        if isinstance(y, list):
            chk.must("the arguments are left as they are", [vkey(p) for p in w.elems(st, x)] == [vkey(p) for p in y], wh, name)
    chk.count("functions of their arguments alone")
    st = w.state()
    for v in variants:
        r = w.call(name, build(st, v), st)
        if isinstance(r, ArrRef):               # the earlier caller owns its result
            w.it.store_arr(st, r, [T.ZERO] * len(r.idx))
    got = flat(st, w.call(name, build(st, args), st))
    if chk.must("the result does not depend on earlier calls", len(got) == len(want), wh, name):
        for j, (g, x) in enumerate(zip(got, want)):
            if vkey(g) != vkey(x):
                chk.eq("the result does not depend on earlier calls", g, x, wh, st.pc, angle=angle is True or j in angle)
    chk.ok("the result does not depend on earlier calls", name)
