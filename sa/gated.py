"""Gated values: canonical multi-valued decision diagrams over condition atoms.

A *value* is either a leaf (any hashable constant, a scalar number `Poly`, a heap
reference, ...) or a Node on one condition variable.  Condition variables are
  sign(d)   three-way: d<0, d==0, d>0   (d a canonical polynomial)
  bool(k)   two-way
  enum(s)   an n-way switch of a loop-carried finite flag
Diagrams are interned, so equal gated values are identical objects.
"""
from . import terms as T
from .terms import Poly


class Var:
    __slots__ = ("id", "kind", "data", "arity")

    def __repr__(self):
        return f"{self.kind}({self.data})"


class Node:
    __slots__ = ("var", "kids", "uid", "size", "supp")

    def __repr__(self):
        return show(self)


_vars = {}
_varlist = []
_nodes = {}


def mkvar(kind, data, arity):
    key = (kind, data.key() if isinstance(data, Poly) else data)
    v = _vars.get(key)
    if v is None:
        v = Var()
        v.id = len(_varlist)
        v.kind, v.data, v.arity = kind, data, arity
        _vars[key] = v
        _varlist.append(v)
    return v


def vkey(x):
    if isinstance(x, Node):
        return ("N", x.uid)
    if isinstance(x, Poly):
        return ("P", x.uid)
    if isinstance(x, Tup):
        return ("T", x.key())
    return (type(x).__name__, x)


class Tup:
    """immutable tuple of values"""
    __slots__ = ("items", "_k")

    def __init__(self, items):
        self.items = tuple(items)
        self._k = tuple(vkey(i) for i in self.items)

    def key(self):
        return self._k

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, Tup) and self._k == o._k

    def __repr__(self):
        return "(" + ", ".join(map(str, self.items)) + ")"


def same(a, b):
    return a is b or vkey(a) == vkey(b)


def node(var, kids):
    k0 = vkey(kids[0])
    if all(vkey(k) == k0 for k in kids[1:]):
        return kids[0]
    key = (var.id, tuple(vkey(k) for k in kids))
    n = _nodes.get(key)
    if n is None:
        n = Node()
        n.var, n.kids = var, tuple(kids)
        n.uid = len(_nodes)
        sp = 1 << var.id
        sz = 1
        for k in n.kids:
            if isinstance(k, Node):
                sp |= k.supp
                sz += k.size
        n.supp = sp
        n.size = sz if sz < 1000000 else 1000000
        _nodes[key] = n
    return n


class GateBlowup(Exception):
    pass


def lift(fn, *vals):
    """apply fn at the leaves"""
    if not any(isinstance(v, Node) for v in vals):
        return fn(*vals)
    memo = {}

    def rec(vs):
        top = None
        for v in vs:
            if isinstance(v, Node) and (top is None or v.var.id < top.id):
                top = v.var
        if top is None:
            return fn(*vs)
        k = tuple(vkey(v) for v in vs)
        r = memo.get(k)
        if r is None:
            if len(memo) > 60000:
                raise GateBlowup()
            kids = []
            for i in range(top.arity):
                kids.append(rec(tuple(v.kids[i] if isinstance(v, Node) and v.var is top else v for v in vs)))
            r = branch(top, kids)
            memo[k] = r
        return r

    return rec(vals)


def branch(var, kids):
    """node for values that may themselves depend on variables above var"""
    if all(not isinstance(k, Node) or k.var.id > var.id for k in kids):
        return node(var, kids)
    r = kids[-1]
    for i in range(var.arity - 1):
        r = ite(node(var, [j == i for j in range(var.arity)]), kids[i], r)
    return r


_ite_memo = {}


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    memo = _ite_memo
    if len(memo) > 600000:
        memo.clear()

    def rec(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        k = (c.uid, vkey(a), vkey(b))
        if k[1] == k[2]:
            return a
        r = memo.get(k)
        if r is None:
            top = c.var
            for v in (a, b):
                if isinstance(v, Node) and v.var.id < top.id:
                    top = v.var
            kids = [rec(_co(c, top, i), _co(a, top, i), _co(b, top, i)) for i in range(top.arity)]
            r = node(top, kids)
            memo[k] = r
        return r

    return rec(c, a, b)


def _co(v, var, i):
    return v.kids[i] if isinstance(v, Node) and v.var is var else v


_opmemo = {}


def _bop(name, fn, a, b):
    k = (name, vkey(a), vkey(b))
    r = _opmemo.get(k)
    if r is None:
        r = lift(fn, a, b)
        _opmemo[k] = r
    return r


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return ite(a, b, False)


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return ite(a, True, b)


def b_not(a):
    return ite(a, False, True)


def b_implies(a, b):
    return b_or(b_not(a), b)


_restrict_memo = {}
QUANT_LIMIT = 400


def restrict(f, care):
    """simplify f outside `care` (a non-False boolean diagram)"""
    if not isinstance(f, Node) or not isinstance(care, Node) or not (f.supp & care.supp):
        return f
    memo = _restrict_memo
    if len(memo) > 400000:
        memo.clear()

    def rec(f, c):
        if not isinstance(f, Node) or not isinstance(c, Node) or not (f.supp & c.supp):
            return f
        k = (f.uid, c.uid)
        r = memo.get(k)
        if r is not None:
            return r[0]
        if c.var.id < f.var.id:
            live = [x for x in c.kids if x is not False]
            u = live[0]
            for x in live[1:]:
                if u is True:
                    break
                if isinstance(u, Node) and isinstance(x, Node) and u is not x and u.size + x.size > QUANT_LIMIT:
                    u = True          # weaker care set: less simplification, still sound
                    break
                u = b_or(u, x)
            r = rec(f, u)
        else:
            kids = []
            for i in range(f.var.arity):
                ci = _co(c, f.var, i)
                if ci is False:
                    kids.append(None)
                else:
                    kids.append(rec(f.kids[i], ci))
            fill = next(x for x in kids if x is not None)
            r = node(f.var, [fill if x is None else x for x in kids])
        memo[k] = (r,)
        return r

    return rec(f, care)


def leaves(v):
    """distinct leaves of v with the condition of each: [(leaf, cond)]"""
    if not isinstance(v, Node):
        return [(v, True)]
    out = {}
    memo = {}

    def collect(x):
        if not isinstance(x, Node):
            out.setdefault(vkey(x), x)
            return
        if x.uid in memo:
            return
        memo[x.uid] = 1
        for k in x.kids:
            collect(k)

    collect(v)
    res = []
    for k, leaf in out.items():
        res.append((leaf, lift(lambda y, k=k: vkey(y) == k, v)))
    return res


def paths(v, pred, limit=200000):
    """yield (literals, leaf) for the paths to leaves satisfying pred.
    literals: tuple of (Var, child index)"""
    count = [0]

    has = {}

    def reach(x):
        if not isinstance(x, Node):
            return pred(x)
        r = has.get(x.uid)
        if r is None:
            r = any(reach(k) for k in x.kids)
            has[x.uid] = r
        return r

    def rec(x, lits):
        if not reach(x):
            return
        if not isinstance(x, Node):
            count[0] += 1
            if count[0] > limit:
                raise GateBlowup()
            yield lits, x
            return
        for i, k in enumerate(x.kids):
            yield from rec(k, lits + ((x.var, i),))

    yield from rec(v, ())


# ------------------------------------------------------------- comparisons
def sign_of(p):
    """gated sign of a polynomial: leaf -1/0/1 (ints), pruned by known signs"""
    c = p.const()
    if c is not None:
        return (c > 0) - (c < 0)
    s = T.sign(p)
    if s == "+":
        return 1
    if s == "-":
        return -1
    if s == "0":
        return 0
    # infinities
    inf = ((T.sym_id(T.INF), 1),)
    if inf in p.terms:
        return 1 if p.terms[inf] > 0 else -1
    c, mono, prim = T.split_content(p)
    flip = c < 0
    rest = prim
    for i, e in mono.items():
        a = T._atoms[i]
        if T._atom_sign(a) == "+":
            continue
        rest = rest * T.atom_poly(a, e)
    cc, m2, pr2 = T.split_content(rest)
    if cc < 0:
        flip = not flip
        rest = -rest
    sp = _sign_struct(rest)
    if sp is not None:
        return lift(lambda x: -x, sp) if flip else sp
    v = mkvar("sign", rest, 3)
    lo, hi = (1, -1) if flip else (-1, 1)
    kids = [lo, 0, hi]
    if s == "0+":
        kids[kids.index(-1)] = 0
    if s == "0-":
        kids[kids.index(1)] = 0
    return node(v, kids)


def _sign_struct(p):
    """sign of a term whose sign follows from the signs of its arguments"""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = T._atoms[m[0][0]]
            if a.kind == "fn" and a.name == "atan2":
                y, x = a.args
                onaxis = lift(lambda s: 1 if s < 0 else 0, sign_of(x))      # y == 0
                sy = sign_of(y)
                return ite(lift(lambda s: s == 0, sy), onaxis, sy)
            if a.kind == "fn" and a.name in ("atan", "asin"):
                return sign_of(a.args[0])
    sq = _squares(p)
    if sq:
        r = 0
        for a in sq:
            r = ite(lift(lambda s: s == 0, sign_of(a)), r, 1)
        return r
    return None


def _squares(p):
    """atoms q with p = sum of positive multiples of even powers of single atoms (or a root of such a sum)"""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c > 0 and len(m) == 1:
            a = T._atoms[m[0][0]]
            if a.kind == "sum" and isinstance(m[0][1], T.Fr) and m[0][1] > 0:
                return _squares(a.poly)
    out = []
    for m, c in p.terms.items():
        if c <= 0 or len(m) != 1 or not isinstance(m[0][1], int) or m[0][1] <= 0 or m[0][1] % 2:
            return None
        a = T._atoms[m[0][0]]
        if a.kind not in ("sym", "fn"):
            return None
        out.append(T.atom_poly(a))
    return out


def boolvar(key):
    return node(mkvar("bool", key, 2), (False, True))


def enumvar(key, domain):
    return node(mkvar("enum", key, len(domain)), tuple(domain))


# ------------------------------------------------------------- feasibility
def feasible(lits):
    """linear-arithmetic emptiness test of the sign literals on one path
    (Fourier-Motzkin over monomials taken as independent unknowns).
    Returns (ok, equalities) where equalities are polynomials known to be zero."""
    lt = []     # p < 0
    eq = []
    nn = []     # p <= 0 side facts
    for v, i in lits:
        if v.kind != "sign":
            continue
        if i == 0:
            lt.append(v.data)
        elif i == 2:
            lt.append(-v.data)
        else:
            eq.append(v.data)
    if not lt and not eq:
        return True, []
    # signs of single atoms known on the path
    known = {}
    for v, i in lits:
        if v.kind == "sign" and len(v.data.terms) == 1:
            (m, c), = v.data.terms.items()
            if len(m) == 1 and m[0][1] == 1:
                known[m[0][0]] = (i - 1) * (1 if c > 0 else -1)
    # abs facts: abs(x) >= x, -x ; nonneg atoms
    seen = set()
    for p in lt + eq:
        for m in p.terms:
            if m in seen or m == ():
                continue
            seen.add(m)
            s = T._mono_sign(m)
            if s not in ("+", "-") and known:
                s = _known_sign(m, known) or s
            mp = T.make({m: T.Fr(1)})
            if s == "+":
                lt.append(-mp)
            elif s == "-":
                lt.append(mp)
            elif s == "0+":
                nn.append(-mp)
            elif s == "0-":
                nn.append(mp)
            if len(m) == 1 and m[0][1] == 1:
                a = T._atoms[m[0][0]]
                if a.kind == "fn" and a.name == "abs":
                    nn.append(a.args[0] - mp)
                    nn.append(-a.args[0] - mp)
    # gaussian elimination with equalities
    sub = []

    def red(p):
        for m, e in sub:
            c = p.terms.get(m)
            if c:
                p = p - e * T.const(c)
        return p

    lin = [(p, True) for p in lt] + [(p, False) for p in nn]
    extra = _scaled(lin + [(p, None) for p in eq])
    for p in eq + [p for p, s in extra if s is None]:
        p = red(p)
        k = p.const()
        if k is not None:
            if k != 0:
                return False, eq
            continue
        m = next(m for m in p.terms if m != ())
        e = p * T.const(1 / p.terms[m])      # m + rest = 0
        sub = [(mm, ee - e * T.const(ee.terms.get(m, 0))) for mm, ee in sub]
        sub.append((m, e))
    cons = [(red(p), s) for p, s in lin + extra if s is not None]
    return _fm(cons), [e for _, e in sub]


def _scaled(cons):
    """constraints multiplied by a positive monomial that brings at least two of their terms
    to terms of another constraint"""
    every = {m for p, _ in cons for m in p.terms}
    out = []
    if len(cons) > 60:
        return out
    for p, s in cons:
        if len(p.terms) < 2 or len(p.terms) > 4:
            continue
        seen = set()
        for m, m0 in [(m, m0) for m in every for m0 in p.terms if m0 != ()]:
            if m == m0 or len(m) <= len(m0) or not set(m0) <= set(m):
                continue
            f = tuple(x for x in m if x not in m0)
            if f in seen:
                continue
            seen.add(f)
            if T._mono_sign(f) != "+":
                continue
            q = p * T.make({f: T.Fr(1)})
            if sum(1 for x in q.terms if x in every) >= 2:
                out.append((q, s))
                if len(out) > 12:
                    return out
    return out


def _known_sign(m, known):
    """sign of a monomial from the atom signs known on the path"""
    r = 1
    for i, e in m:
        k = known.get(i)
        if k is None:
            t = T._atom_sign(T._atoms[i])
            k = {"+": 1, "-": -1}.get(t)
        if k is None or k == 0:
            return None
        if k < 0:
            if not isinstance(e, int):
                return None
            if e % 2:
                r = -r
    return "+" if r > 0 else "-"


def _fm(cons):
    cur = set()
    for p, strict in cons:
        k = p.const()
        if k is not None:
            if k > 0 or (k == 0 and strict):
                return False
            continue
        cur.add((p, strict))
    while cur:
        monos = {}
        for p, s in cur:
            for m in p.terms:
                if m != ():
                    lo, hi = monos.get(m, (0, 0))
                    if p.terms[m] > 0:
                        hi += 1
                    else:
                        lo += 1
                    monos[m] = (lo, hi)
        if not monos:
            break
        m = min(monos, key=lambda x: monos[x][0] * monos[x][1])
        if monos[m][0] * monos[m][1] > 400:
            return True
        up = [(p, s) for p, s in cur if p.terms.get(m, 0) > 0]
        dn = [(p, s) for p, s in cur if p.terms.get(m, 0) < 0]
        nxt = {(p, s) for p, s in cur if m not in p.terms}
        for p, s in up:
            for q, t in dn:
                r = p * T.const(1 / p.terms[m]) + q * T.const(-1 / q.terms[m])
                k = r.const()
                st = s or t
                if k is not None:
                    if k > 0 or (k == 0 and st):
                        return False
                    continue
                c, mono, prim = T.split_content(r)
                nxt.add((r * T.const(1 / abs(c)), st))
        if len(nxt) > 600:
            return True
        cur = nxt
    return True


def reduce_mod(p, eqs):
    """p modulo the (reduced) equalities"""
    for e in eqs:
        m = next((m for m in e.terms if m != () and e.terms[m] == 1), None)
        if m is None:
            continue
        c = p.terms.get(m)
        if c:
            p = p - e * T.const(c)
    return p


# ----------------------------------------------------------------- display
def show_lit(v, i):
    if v.kind == "sign":
        return f"{T.show(v.data)} {['<', '==', '>'][i]} 0"
    if v.kind == "bool":
        return ("" if i else "not ") + _show_key(v.data)
    return f"{v.data}#{i}"


def _show_key(k):
    return str(k)[:160]


def show_path(lits):
    return " and ".join(show_lit(v, i) for v, i in lits) if lits else "always"


def show(v, limit=6):
    if isinstance(v, Node):
        out = []
        try:
            for n, (lits, leaf) in enumerate(paths(v, lambda _: True)):
                if n >= limit:
                    out.append("…")
                    break
                out.append(f"[{show_path(lits)} -> {show(leaf)}]")
        except GateBlowup:
            out.append("…")
        return " ".join(out)
    if isinstance(v, Poly):
        return T.show(v)
    return str(v)
