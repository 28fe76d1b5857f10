"""Value numbers for real scalars.

A scalar expression of the analysed source is represented by an interned,
canonical *generalised polynomial*: a finite sum of monomials with exact
rational coefficients over interned atoms, where every atom may carry an
integer or rational exponent.  Two expressions get the same number iff their
canonical forms coincide; `is_zero` decides the residual rational-function
identities exactly (clear denominators, expand, cancel).  No floating point and
no solver is involved.

Atom kinds
  sym    free symbol (function argument, physical constant, pi)
  fn     application of a known or unknown function to canonical arguments
  sum    a polynomial that had to become an atom (denominator / radicand)
  prime  a prime number under a fractional exponent
"""
from fractions import Fraction as Fr
from functools import lru_cache
import math

ZERO_EXP_LIMIT = 6000          # monomials; beyond that an identity is not expanded


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "name", "args", "poly", "pos", "nonneg", "extra")

    def __repr__(self):
        return f"<{self.id}:{self.kind}:{self.name}>"


_atoms = []
_atom_index = {}
_polys = {}


def _mk_atom(kind, name, args=(), poly=None, extra=None):
    key = (kind, name, tuple(args_key(a) for a in args), id(poly) if poly is not None else None, extra)
    a = _atom_index.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.name, a.args, a.poly = kind, name, tuple(args), poly
        a.pos = False
        a.nonneg = False
        a.extra = extra
        _atoms.append(a)
        _atom_index[key] = a
    return a


def args_key(a):
    return a.key() if isinstance(a, Poly) else (type(a).__name__, a)


class Poly:
    """Interned canonical generalised polynomial."""
    __slots__ = ("terms", "uid", "_sgn", "_deps")

    def key(self):
        return ("P", self.uid)

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = to_poly(o)
        d = dict(self.terms)
        for m, c in o.terms.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
        return make(d)

    __radd__ = __add__

    def __neg__(self):
        return make({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-to_poly(o))

    def __rsub__(self, o):
        return to_poly(o) + (-self)

    def __mul__(self, o):
        o = to_poly(o)
        if self is ZERO or o is ZERO:
            return ZERO
        if self is ONE:
            return o
        if o is ONE:
            return self
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(to_poly(o), Fr(-1))

    def __rtruediv__(self, o):
        return to_poly(o) * power(self, Fr(-1))

    def __pow__(self, e):
        return power(self, Fr(e))

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def const(self):
        return self.terms.get((), Fr(0)) if self.is_const() else None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


def make(d):
    k = frozenset(d.items())
    p = _polys.get(k)
    if p is None:
        p = Poly()
        p.terms = d
        p.uid = len(_polys)
        p._sgn = None
        p._deps = None
        _polys[k] = p
    return p


ZERO = make({})
ONE = make({(): Fr(1)})


def const(c):
    c = Fr(c)
    return ZERO if c == 0 else make({(): c})


def to_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fr)):
        return const(x)
    raise TypeError(f"not a scalar: {x!r}")


def _e(x):
    """normalise an exponent"""
    if isinstance(x, Fr) and x.denominator == 1:
        return int(x)
    return x


# ---------------------------------------------------------------- symbols
def sym(name, pos=False, nonneg=False, extra=None):
    a = _mk_atom("sym", name, extra=extra)
    if pos and not a.pos:
        a.pos = True
    if nonneg:
        a.nonneg = True
    return make({((a.id, 1),): Fr(1)})


_fresh = [0]


def fresh(name, **kw):
    _fresh[0] += 1
    return sym(f"{name}#{_fresh[0]}", **kw)


PI = sym("pi", pos=True)
INF = sym("inf", pos=True)


def fn_atom(name, args, extra=None):
    return _mk_atom("fn", name, args, extra=extra)


def atom_poly(a, e=1):
    return make({((a.id, _e(e)),): Fr(1)})


# --------------------------------------------------------------- monomials
def _mono_mul(m1, m2):
    """merge two monomials -> dict id->exp"""
    d = dict(m1)
    for i, e in m2:
        v = d.get(i, 0) + e
        if v == 0:
            d.pop(i, None)
        else:
            d[i] = _e(v) if isinstance(v, Fr) else v
    return d


def _needs_rewrite(d):
    for i, e in d.items():
        a = _atoms[i]
        if a.kind == "sum" and e >= 1:
            return True
        if a.kind == "prime" and (e >= 1 or e < 0):
            return True
        if a.kind == "fn" and a.name == "sin" and e >= 2:
            return True
        if a.kind == "fn" and a.name == "abs" and (e >= 2):
            return True
        if a.kind == "fn" and a.name == "exp" and e != 1:
            return True
    if sum(1 for i in d if _atoms[i].kind == "fn" and _atoms[i].name == "exp") > 1:
        return True
    return False


def _rewrite(d, c):
    """rewrite a raw monomial into a Poly"""
    res = None
    rest = {}
    expo = None
    for i, e in d.items():
        a = _atoms[i]
        f = None
        if a.kind == "sum" and e >= 1:
            n = math.floor(e)
            f = ipow(a.poly, n)
            r = e - n
            if r:
                rest[i] = _e(r)
        elif a.kind == "prime" and (e >= 1 or e < 0):
            n = math.floor(e)
            c = c * Fr(a.extra) ** n
            r = e - n
            if r:
                rest[i] = _e(r)
        elif a.kind == "fn" and a.name == "sin" and e >= 2:
            n = math.floor(e) // 2
            cs = fcos(a.args[0])
            f = ipow(ONE - cs * cs, n)
            r = e - 2 * n
            if r:
                rest[i] = _e(r)
        elif a.kind == "fn" and a.name == "abs" and e >= 2:
            n = math.floor(e) // 2
            f = ipow(a.args[0], 2 * n)
            r = e - 2 * n
            if r:
                rest[i] = _e(r)
        elif a.kind == "fn" and a.name == "exp":
            t = a.args[0] * const(e)
            expo = t if expo is None else expo + t
        else:
            rest[i] = e
        if f is not None:
            res = f if res is None else res * f
    if expo is not None:
        ep = fexp(expo)
        if len(ep.terms) == 1:
            (m, cc), = ep.terms.items()
            c = c * cc
            for i, e in m:
                rest[i] = rest.get(i, 0) + e
        else:
            res = ep if res is None else res * ep
    base = make({tuple(sorted(rest.items())): c}) if c else ZERO
    return base if res is None else base * res


def _mul(p, q):
    if len(p.terms) * len(q.terms) > 400000:
        raise TooBig()
    out = {}
    extra = []
    for m1, c1 in p.terms.items():
        for m2, c2 in q.terms.items():
            if not m1:
                k = m2
            elif not m2:
                k = m1
            else:
                d = _mono_mul(m1, m2)
                if _needs_rewrite(d):
                    extra.append((d, c1 * c2))
                    continue
                k = tuple(sorted(d.items()))
            v = out.get(k, 0) + c1 * c2
            if v == 0:
                out.pop(k, None)
            else:
                out[k] = v
    for d, c in extra:
        _acc(out, _rewrite(d, c))
    if len(out) > 20000:
        raise TooBig()
    return make(out)


def _acc(out, p):
    """add polynomial p to the dictionary of monomials"""
    for m, c in p.terms.items():
        v = out.get(m, 0) + c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    if len(out) > 60000:
        raise TooBig()


def ipow(p, n):
    r = ONE
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


# ------------------------------------------------------------ factorisation
def split_content(p):
    """p = c * mono * primitive; returns (c, mono dict, primitive Poly) with the
    leading coefficient of the primitive part positive (canonical)."""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        return c, dict(m), ONE
    mins = None
    for m in p.terms:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            new = {}
            for i in set(mins) | set(d):
                e = min(mins.get(i, 0), d.get(i, 0))
                if e:
                    new[i] = e
            mins = new
    g = None
    for c in p.terms.values():
        if g is None:
            g = abs(c)
        else:
            g = Fr(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    lead = min(p.terms, key=_lead_key)
    if p.terms[lead] < 0:
        g = -g
    out = {}
    for m, c in p.terms.items():
        d = dict(m)
        for i, e in mins.items():
            v = d.get(i, 0) - e
            if v == 0:
                d.pop(i, None)
            else:
                d[i] = _e(v) if isinstance(v, Fr) else v
        out[tuple(sorted(d.items()))] = c / g
    return g, mins, make(out)


def _lead_key(m):
    # deterministic within a run; constant term first so that e.g. 1-x is "positive"
    return (len(m), m)


def _norm_raw(p):
    """re-normalise monomials that became rewritable after content extraction"""
    bad = [m for m in p.terms if _needs_rewrite(dict(m))]
    if not bad:
        return p
    out = dict(p.terms)
    for m in bad:
        del out[m]
    for m in bad:
        _acc(out, _rewrite(dict(m), p.terms[m]))
    return make(out)


_factor_cache = {}


def factor(p):
    """p -> (coeff, [(kind, payload, exp)...]) with atoms and primitive irreducible polys.
    returns (c, {atom_id: exp}, [(Poly, n)])"""
    r = _factor_cache.get(p)
    if r is None:
        r = _factor(p)
        _factor_cache[p] = r
    return r


def _factor(p):
    c, mono, prim = split_content(p)
    if prim is ONE:
        return c, mono, []
    prim2 = _norm_raw(prim)
    if prim2 is ZERO:
        return Fr(0), {}, []
    if prim2 is not prim:
        # content extraction exposed a rewrite: factor the rewritten polynomial
        c2, m2, f2 = factor(prim2)
        m = dict(mono)
        for i, e in m2.items():
            v = m.get(i, 0) + e
            if v:
                m[i] = v
            else:
                m.pop(i, None)
        return c * c2, m, f2
    facs = _factor_prim(prim)
    # (1-cos)(1+cos) -> sin^2
    facs = dict(facs)
    changed = True
    cc = c
    while changed:
        changed = False
        for f in list(facs):
            ca = _one_plus_cos(f)
            if ca is None:
                continue
            arg, s = ca
            other = _canon_prim(ONE - const(s) * fcos(arg))
            if other[0] in facs and facs[f] == facs[other[0]]:
                n = facs.pop(f)
                facs.pop(other[0])
                # f = (1 + s cos)*sgn ; product = sgn*(1-cos^2)
                cc = cc * (_sgn_of_prim(f, arg, s) * other[1]) ** n
                sa = fn_atom("sin", (arg,))
                mono[sa.id] = mono.get(sa.id, 0) + 2 * n
                changed = True
                break
    return cc, mono, list(facs.items())


def _canon_prim(p):
    c, m, q = split_content(p)
    return q, c


def _sgn_of_prim(f, arg, s):
    # f == k*(1+s*cos(arg)); return k
    return f.terms.get((), Fr(1))


def _one_plus_cos(f):
    if len(f.terms) != 2 or () not in f.terms:
        return None
    for m, c in f.terms.items():
        if m == ():
            k = c
        else:
            if len(m) != 1 or m[0][1] != 1:
                return None
            a = _atoms[m[0][0]]
            if a.kind != "fn" or a.name != "cos":
                return None
            arg, cc = a.args[0], c
    r = cc / k
    if r in (1, -1):
        return arg, int(r)
    return None


def _factor_prim(prim):
    if len(prim.terms) > 24:
        return [(prim, 1)]
    dens = {}
    for m in prim.terms:
        for i, e in m:
            d = e.denominator if isinstance(e, Fr) else 1
            dens[i] = math.lcm(dens.get(i, 1), d)
    if len(dens) > 9:
        return [(prim, 1)]
    if any(isinstance(e, int) and e > 12 for m in prim.terms for _, e in m):
        return [(prim, 1)]
    ids = sorted(dens)
    # a polynomial linear in some variable with coprime... leave it to sympy
    from sympy.polys.rings import ring
    from sympy.polys.domains import ZZ
    R = ring([f"x{i}" for i in ids], ZZ)[0]
    lc = 1
    for c in prim.terms.values():
        lc = math.lcm(lc, c.denominator)
    d = {}
    for m, c in prim.terms.items():
        ex = dict(m)
        d[tuple(int(ex.get(i, 0) * dens[i]) for i in ids)] = ZZ(int(c * lc))
    el = R.from_dict(d)
    cont, facs = el.factor_list()
    out = []
    total = Fr(int(cont), lc)
    for f, n in facs:
        t = {}
        for exps, c in f.terms():
            mono = tuple((i, _e(Fr(e, dens[i]))) for i, e in zip(ids, exps) if e)
            t[mono] = Fr(int(c))
        q, k = _canon_prim(make(t))
        total *= k ** n
        out.append((q, n))
    # total must be +-1-like rational; fold it by returning only if it is one
    if total != 1:
        if total == -1 and len(out) == 1 and out[0][1] == 1:
            return [(prim, 1)]
        # put the constant back: fall back to unfactored unless +-1
        return [(prim, 1)] if len(out) == 1 else _fold(total, out, prim)
    return out


def _fold(total, out, prim):
    return [(prim, 1)]


# ------------------------------------------------------------------ powers
def _prime_pow(c, r):
    """positive rational c ** r -> (Fr, {atom: exp})"""
    coef = Fr(1)
    mono = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while n > 1:
            if f * f > n:
                f = n
            k = 0
            while n % f == 0:
                n //= f
                k += 1
            if k:
                e = Fr(k * s) * r
                fl = math.floor(e)
                coef *= Fr(f) ** fl
                fr = e - fl
                if fr:
                    a = _mk_atom("prime", str(f), extra=f)
                    a.pos = True
                    mono[a.id] = _e(fr)
            f += 1 if f == 2 else 2
            if f > 100000 and n > 1:
                f = n
    return coef, mono


def sum_atom(p):
    return _mk_atom("sum", "S", poly=p)


_pow_cache = {}


def power(p, r):
    r = Fr(r)
    if r == 0:
        return ONE
    if r == 1:
        return p
    k = (p, r)
    v = _pow_cache.get(k)
    if v is None:
        v = _power(p, r)
        if FACTS.cachable:
            _pow_cache[k] = v
    return v


def _power(p, r):
    if p is ZERO:
        if r > 0:
            return ZERO
        return make({((fn_atom("div0", ()).id, 1),): Fr(1)})
    if r.denominator == 1 and r > 0:
        if len(p.terms) ** min(int(r), 3) <= 4000:
            return ipow(p, int(r))
    c, mono, facs = factor(p)
    if r.denominator == 1:
        coef = c ** int(r)
        out = {}
        res = ONE
        extra = {}
        for i, e in mono.items():
            v = e * r
            extra[i] = _e(v)
        for f, n in facs:
            a = sum_atom(f)
            extra[a.id] = extra.get(a.id, 0) + _e(n * r)
            if extra[a.id] == 0:
                del extra[a.id]
        if _needs_rewrite(extra):
            return _rewrite(extra, coef)
        return make({tuple(sorted(extra.items())): coef})
    # fractional exponent: separate factors of known sign
    good = {}
    left = ONE          # factors of unknown sign, multiplied together
    sgn = 1
    if c < 0:
        sgn = -1
        c = -c
    for i, e in mono.items():
        a = _atoms[i]
        if _atom_pos(a):
            good[i] = good.get(i, 0) + e * r
        elif isinstance(e, int) and e % 2 == 0:
            b = fabs(atom_poly(a))
            for m, cc in b.terms.items():
                for j, ee in m:
                    good[j] = good.get(j, 0) + ee * e * r
        else:
            left = left * atom_poly(a, e)
    for f, n in facs:
        s = sign(f)
        if s in ("+", "0+"):
            a = sum_atom(f)
            good[a.id] = good.get(a.id, 0) + n * r
        elif s in ("-", "0-"):
            g = -f
            a = sum_atom(g)
            good[a.id] = good.get(a.id, 0) + n * r
            if n % 2:
                sgn = -sgn
        elif n % 2 == 0:
            b = fabs(f)
            for m, cc in b.terms.items():
                for j, ee in m:
                    good[j] = good.get(j, 0) + ee * n * r
        else:
            left = left * ipow(f, n)
    coef, pm = _prime_pow(c, r)
    for i, e in pm.items():
        good[i] = good.get(i, 0) + e
    if sgn < 0:
        left = -left
    if left is not ONE:
        if len(left.terms) == 1:
            (m, cc), = left.terms.items()
            if cc == 1 and len(m) == 1 and m[0][1] > 0:
                good[m[0][0]] = good.get(m[0][0], 0) + m[0][1] * r
            else:
                a = sum_atom(left)
                good[a.id] = good.get(a.id, 0) + r
        else:
            a = sum_atom(left)
            good[a.id] = good.get(a.id, 0) + r
    d = {i: _e(e) if isinstance(e, Fr) else e for i, e in good.items() if e != 0}
    if _needs_rewrite(d):
        return _rewrite(d, coef)
    return make({tuple(sorted(d.items())): coef})


def fsqrt(p):
    return power(p, Fr(1, 2))


def gpow(b, e):
    """general power b**e"""
    ce = e.const()
    if ce is not None and ce.denominator <= 12 and abs(ce) <= 12:
        return power(b, ce)
    if b is ONE:
        return ONE
    return _fn("pow", (b, e))


# ------------------------------------------------------------------- signs
class _Facts:
    def __init__(self):
        self.pos = set()       # canonical primitive polys known > 0
        self.cachable = True
        self.stack = []


FACTS = _Facts()


def assume_pos(p):
    """declare p > 0 (p a Poly).  Must be called before dependent terms are built."""
    p = to_poly(p)
    c, mono, prim = split_content(p)
    if prim is ONE:
        for i, e in mono.items():
            _atoms[i].pos = True
        return
    # assume the monomial content has known sign
    s = 1 if c > 0 else -1
    FACTS.pos.add((prim, s))
    cc, mm, facs = factor(prim)
    if len(facs) == 1 and facs[0][1] == 1 and facs[0][0] is not prim:
        FACTS.pos.add((facs[0][0], s if cc > 0 else -s))
    prim._sgn = None
    _pow_cache.clear()
    for q in _polys.values():
        q._sgn = None


def reset_facts():
    FACTS.pos.clear()
    _pow_cache.clear()
    for q in _polys.values():
        q._sgn = None


def _atom_pos(a):
    return _atom_sign(a) in ("+", "0+")


def _atom_sign(a):
    if a.pos:
        return "+"
    if a.nonneg:
        return "0+"
    if a.kind == "sum":
        return sign(a.poly)
    if a.kind == "prime":
        return "+"
    if a.kind == "fn":
        if a.name == "exp":
            return "+"
        if a.name in ("abs", "acos", "norm"):
            return "0+"
        if a.name == "pow":
            s = sign(a.args[0])
            if s in ("+", "0+"):
                return s
    return None


def sign(p):
    """'+', '-', '0+', '0-', '0' or None"""
    if p._sgn is not None:
        return p._sgn if p._sgn != "?" else None
    r = _sign(p)
    p._sgn = r if r is not None else "?"
    return r


def _flip(s):
    return {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "0": "0", None: None}[s]


def _mono_sign(m):
    neg = False
    strict = True
    for i, e in m:
        s = _atom_sign(_atoms[i])
        if isinstance(e, int) and e % 2 == 0:
            if s not in ("+", "-"):
                strict = False
            continue
        if isinstance(e, Fr):
            # a real root is non-negative
            if s not in ("+",):
                strict = False
            continue
        if s is None:
            return None
        if s in ("-", "0-"):
            neg = not neg
        if s in ("0+", "0-"):
            strict = False
        if s == "0":
            return "0"
    if strict:
        return "-" if neg else "+"
    return "0-" if neg else "0+"


def _sign(p):
    if not p.terms:
        return "0"
    tot = None
    for m, c in p.terms.items():
        s = _mono_sign(m)
        if s is None:
            tot = "?"
            break
        if c < 0:
            s = _flip(s)
        if tot is None:
            tot = s
        elif tot[-1] != s[-1]:
            tot = "?"
            break
        else:
            if s in ("+", "-"):
                tot = s
    if tot in ("+", "-") or tot != "?" and not FACTS.pos:
        return tot
    c, mono, prim = split_content(p)
    for f, s in FACTS.pos:
        if f is prim:
            ms = _mono_sign(tuple(mono.items()))
            if ms is None:
                return None
            sg = ms if c * s > 0 else _flip(ms)
            return sg
    if tot != "?":
        return tot
    # a sum over distinct radicals whose coefficients share a sign
    if FACTS.pos:
        rad = {}
        for m, c0 in p.terms.items():
            key = tuple(x for x in m if isinstance(x[1], Fr))
            rad.setdefault(key, {})[tuple(x for x in m if not isinstance(x[1], Fr))] = c0
        if len(rad) > 1:
            signs = set()
            for key, terms in rad.items():
                ks = _mono_sign(key) if key else "+"
                cs = sign(make(terms)) if ks is not None else None
                if cs is None:
                    signs = None
                    break
                if ks == "0+":
                    cs = {"+": "0+", "-": "0-"}.get(cs, cs)
                signs.add(cs)
            if signs and (signs <= {"+", "0+"} or signs <= {"-", "0-"}):
                return "+" if "+" in signs else "-" if "-" in signs else signs.pop()
    if len(prim.terms) > 1 and (mono or True):
        cc, mm, facs = factor(p)
        if len(facs) > 1 or (facs and facs[0][1] > 1) or (facs and facs[0][0] is not prim):
            ms = _mono_sign(tuple(mm.items()))
            if ms is None:
                return None
            res = ms if cc > 0 else _flip(ms)
            for f, n in facs:
                if n % 2 == 0:
                    s = sign(f)
                    if s not in ("+", "-"):
                        res = {"+": "0+", "-": "0-"}.get(res, res)
                    continue
                s = sign(f)
                if s is None:
                    return None
                if s in ("-", "0-"):
                    res = _flip(res)
                if s in ("0+", "0-"):
                    res = {"+": "0+", "-": "0-"}.get(res, res)
            return res
    return None


# --------------------------------------------------------------- functions
def _fn(name, args, extra=None):
    return atom_poly(fn_atom(name, args, extra))


def _negated(p):
    """canonical orientation: True if p's leading coefficient is negative"""
    lead = min(p.terms, key=_lead_key)
    return p.terms[lead] < 0


def _split_pi(p):
    """p = q + k*pi, k rational"""
    k = p.terms.get(((_atoms_pi, 1),), Fr(0))
    return p - const(k) * PI, k


_atoms_pi = list(PI.terms)[0][0][0]


def fsin(p):
    if p is ZERO:
        return ZERO
    q, k = _split_pi(p)
    if k != 0:
        k2 = k % 2
        if k2 == 0:
            return fsin(q)
        if k2 == 1:
            return -fsin(q)
        if k2 == Fr(1, 2):
            return fcos(q)
        if k2 == Fr(3, 2):
            return -fcos(q)
        if q is ZERO and k2 in _SIN_TAB:
            return _SIN_TAB[k2]()
        p = q + const(k2) * PI
    if _negated(p):
        return -_trig("sin", -p)
    return _trig("sin", p)


def fcos(p):
    if p is ZERO:
        return ONE
    q, k = _split_pi(p)
    if k != 0:
        k2 = k % 2
        if k2 == 0:
            return fcos(q)
        if k2 == 1:
            return -fcos(q)
        if k2 == Fr(1, 2):
            return -fsin(q)
        if k2 == Fr(3, 2):
            return fsin(q)
        if q is ZERO and (k2 + Fr(1, 2)) % 2 in _SIN_TAB:
            return _SIN_TAB[(k2 + Fr(1, 2)) % 2]()
        p = q + const(k2) * PI
    if _negated(p):
        p = -p
    return _trig("cos", p)


def _h(x):
    return lambda: x


_SIN_TAB = {Fr(1, 6): lambda: const(Fr(1, 2)), Fr(5, 6): lambda: const(Fr(1, 2)),
            Fr(7, 6): lambda: const(Fr(-1, 2)), Fr(11, 6): lambda: const(Fr(-1, 2)),
            Fr(1, 4): lambda: power(const(2), Fr(-1, 2)), Fr(3, 4): lambda: power(const(2), Fr(-1, 2)),
            Fr(5, 4): lambda: -power(const(2), Fr(-1, 2)), Fr(7, 4): lambda: -power(const(2), Fr(-1, 2)),
            Fr(1, 3): lambda: power(const(3), Fr(1, 2)) * Fr(1, 2), Fr(2, 3): lambda: power(const(3), Fr(1, 2)) * Fr(1, 2),
            Fr(4, 3): lambda: -power(const(3), Fr(1, 2)) * Fr(1, 2), Fr(5, 3): lambda: -power(const(3), Fr(1, 2)) * Fr(1, 2)}

EXPAND = {"on": False}


def _angle_parts(p):
    return [(m, c) for m, c in p.terms.items()]


def _trig(name, p):
    # inverse compositions
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = _atoms[m[0][0]]
            if a.kind == "fn":
                if a.name == "acos":
                    x = a.args[0]
                    return x if name == "cos" else fsqrt(ONE - x * x)
                if a.name == "asin":
                    x = a.args[0]
                    return x if name == "sin" else fsqrt(ONE - x * x)
                if a.name == "atan":
                    x = a.args[0]
                    d = power(ONE + x * x, Fr(-1, 2))
                    return d if name == "cos" else x * d
                if a.name == "atan2":
                    y, x = a.args
                    d = power(x * x + y * y, Fr(-1, 2))
                    return x * d if name == "cos" else y * d
    if EXPAND["on"]:
        return _trig_expand(name, p)
    return _fn(name, (p,))


def _trig_expand(name, p):
    """expand sums of angles and use half angles as the base (strong pass)"""
    parts = _angle_parts(p)
    if len(parts) > 1:
        # split off one part
        m, c = min(parts, key=lambda t: _lead_key(t[0]))
        a = make({m: c})
        b = p - a
        if name == "sin":
            return fsin(a) * fcos(b) + fcos(a) * fsin(b)
        return fcos(a) * fcos(b) - fsin(a) * fsin(b)
    m, c = parts[0]
    base = Fr(1, 2)
    n = c / base
    if n.denominator != 1 or abs(n) > 12 or m == ():
        return _fn(name, (p,))
    a = _atoms[m[0][0]] if len(m) == 1 else None
    if a is not None and a.kind == "fn" and a.name in ("atan2", "atan", "acos", "asin") and m[0][1] == 1:
        if c.denominator == 1:
            base = Fr(1)
            n = c
    n = int(n)
    u = make({m: base})
    if n == 1:
        if base == 1:
            EXPAND["on"] = False
            try:
                return _trig(name, u)
            finally:
                EXPAND["on"] = True
        return _fn(name, (u,))
    EXP = EXPAND["on"]
    if base == 1:
        EXPAND["on"] = False
        try:
            s1, c1 = _trig("sin", u), _trig("cos", u)
        finally:
            EXPAND["on"] = EXP
    else:
        s1, c1 = _fn("sin", (u,)), _fn("cos", (u,))
    s, cc = s1, c1
    for _ in range(abs(n) - 1):
        s, cc = s * c1 + cc * s1, cc * c1 - s * s1
    if n < 0:
        s = -s
    return s if name == "sin" else cc


def ftan(p):
    return fsin(p) / fcos(p)


def fexp(p):
    if p is ZERO:
        return ONE
    return _fn("exp", (p,))


def flog(p):
    if p is ONE:
        return ZERO
    return _fn("log", (p,))


def fabs(p):
    s = sign(p)
    if s in ("+", "0+", "0"):
        return p
    if s in ("-", "0-"):
        return -p
    c = p.const()
    if c is not None:
        return const(abs(c))
    c, mono, prim = split_content(p)
    out = const(abs(c))
    rest = ONE
    for i, e in mono.items():
        a = _atoms[i]
        if _atom_pos(a) or (isinstance(e, int) and e % 2 == 0) or isinstance(e, Fr):
            out = out * atom_poly(a, e)
        else:
            rest = rest * atom_poly(a, e)
    rest = rest * prim
    if rest is ONE:
        return out
    cc, _, _ = split_content(rest)
    if cc < 0:
        rest = -rest
    s = sign(rest)
    if s in ("+", "0+"):
        return out * rest
    if s in ("-", "0-"):
        return out * (-rest)
    return out * _fn("abs", (rest,))


def facos(p):
    c = p.const()
    if c == 1:
        return ZERO
    if c == -1:
        return PI
    if c == 0:
        return PI * Fr(1, 2)
    return _fn("acos", (p,))


def fasin(p):
    c = p.const()
    if c == 0:
        return ZERO
    if p.terms and _negated(p):
        return -_fn("asin", (-p,))
    return _fn("asin", (p,))


def fatan(p):
    if p is ZERO:
        return ZERO
    if _negated(p):
        return -_fn("atan", (-p,))
    return _fn("atan", (p,))


def fatan2(y, x):
    """scale out common positive content"""
    if y is ZERO and sign(x) == "+":
        return ZERO
    if y is ZERO and sign(x) == "-":
        return PI
    cy, cx = y.const(), x.const()
    if x is ZERO and sign(y) == "+":
        return PI * Fr(1, 2)
    if x is ZERO and sign(y) == "-":
        return PI * Fr(-1, 2)
    if y is ZERO and x is ZERO:
        return ZERO
    # divide both by a common positive factor
    if y is not ZERO and x is not ZERO:
        c1, m1, p1 = factor(y)
        c2, m2, p2 = factor(x)
        scale = ONE
        for i in set(m1) | set(m2):
            e = min(m1.get(i, 0), m2.get(i, 0), key=lambda v: v)
            if i in m1 and i in m2:
                e = min(m1[i], m2[i])
            elif i in m1:
                e = m1[i] if m1[i] < 0 else 0
            else:
                e = m2[i] if m2[i] < 0 else 0
            if e and (_atom_sign(_atoms[i]) == "+" or (isinstance(e, int) and e % 2 == 0)):
                scale = scale * atom_poly(_atoms[i], e)
        d1, d2 = dict(p1), dict(p2)
        for f in d1:
            if f in d2 and sign(f) == "+":
                scale = scale * ipow(f, min(d1[f], d2[f]))
        g = Fr(math.gcd(c1.numerator * c2.denominator, c2.numerator * c1.denominator), c1.denominator * c2.denominator)
        scale = scale * const(g)
        if scale is not ONE:
            y, x = cancel(y / scale), cancel(x / scale)
    return _fn("atan2", (y, x))


def ffloor(p):
    c = p.const()
    if c is not None:
        return const(math.floor(c))
    k = p.terms.get((), Fr(0))
    n = math.floor(k)
    if n:
        return const(n) + _fn("floor", (p - const(n),))
    return _fn("floor", (p,))


def fmod(p, q):
    cp, cq = p.const(), q.const()
    if cp is not None and cq is not None and cq != 0:
        return const(cp - cq * math.floor(cp / cq))
    return p - q * ffloor(p / q)


def app(name, *args, extra=None):
    """uninterpreted function application"""
    return _fn(name, args, extra)


# --------------------------------------------------------------- identities
def cancel(p):
    """cancel sum-atoms with negative exponent against the numerator"""
    if len(p.terms) <= 1:
        return p
    c, m, facs = factor(p)
    d = dict(m)
    r = const(c)
    for f, n in facs:
        a = sum_atom(f)
        if a.id in d:
            e = d[a.id] + n
            if e == 0:
                del d[a.id]
            else:
                d[a.id] = e
        else:
            r = r * ipow(f, n)
    if _needs_rewrite(d):
        return _rewrite(d, Fr(1)) * r
    return make({tuple(sorted(d.items())): Fr(1)}) * r


def atoms_of(p):
    s = set()
    for m in p.terms:
        for i, _ in m:
            s.add(i)
    return s


def clear_den(p):
    """multiply by positive powers until no sum/sin atom has a negative exponent"""
    for _ in range(60):
        lows = {}
        for m in p.terms:
            for i, e in m:
                a = _atoms[i]
                if e < 0 and (a.kind == "sum" or a.kind == "fn"):
                    lows[i] = min(lows.get(i, 0), e)
        if not lows:
            return p
        # innermost-last: take the atom created last (it may contain the others)
        i = max(lows)
        k = math.ceil(-lows[i])
        a = _atoms[i]
        mul = {i: k}
        out = ZERO
        plain = {}
        todo = []
        for m, c in p.terms.items():
            d = _mono_mul(m, tuple(mul.items()))
            if _needs_rewrite(d):
                todo.append((d, c))
            else:
                kk = tuple(sorted(d.items()))
                v = plain.get(kk, 0) + c
                if v:
                    plain[kk] = v
                else:
                    plain.pop(kk, None)
        for d, c in todo:
            _acc(plain, _rewrite(d, c))
        p = make(plain)
        if p is ZERO:
            return p
        if len(p.terms) > ZERO_EXP_LIMIT:
            raise TooBig()
        _, mono, prim = split_content(p)
        p = _norm_raw(prim)
    return p


_zero_cache = {}


def is_zero(p):
    if p is ZERO:
        return True
    k = p.uid
    if k in _zero_cache:
        return _zero_cache[k]
    try:
        r = _is_zero(p)
    except (TooBig, RecursionError):
        r = False
    _zero_cache[k] = r
    return r


def _is_zero(p):
    if clear_den(p) is ZERO:
        return True
    q = strong(p)
    if q is not p:
        if q is ZERO or clear_den(q) is ZERO:
            return True
    return False


# ------------------------------------------------------------ rebuild/subst
def rebuild(p, sub, memo):
    """rebuild p bottom-up, replacing atoms through `sub(atom) -> Poly or None`"""
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.terms.items():
        t = const(c)
        for i, e in m:
            t = t * power(_rebuild_atom(_atoms[i], sub, memo), Fr(e))
        out = out + t
    memo[p] = out
    return out


def _rebuild_atom(a, sub, memo):
    k = ("a", a.id)
    if k in memo:
        return memo[k]
    r = sub(a)
    if r is None:
        if a.kind == "sum":
            r = rebuild(a.poly, sub, memo)
        elif a.kind == "fn":
            args = tuple(rebuild(x, sub, memo) if isinstance(x, Poly) else x for x in a.args)
            r = call(a.name, args, a.extra)
        else:
            r = atom_poly(a)
    memo[k] = r
    return r


_FN = {}


def call(name, args, extra=None):
    f = _FN.get(name)
    if f is not None and all(isinstance(x, Poly) for x in args):
        return f(*args)
    return _fn(name, args, extra)


_FN.update({"sin": fsin, "cos": fcos, "exp": fexp, "log": flog, "abs": fabs, "acos": facos, "asin": fasin,
            "atan": fatan, "atan2": fatan2, "floor": ffloor, "pow": gpow})


def subst(p, mapping):
    """mapping: atom id -> Poly"""
    if not mapping:
        return p
    return rebuild(p, lambda a: mapping.get(a.id), {})


_strong_cache = {}


def strong(p):
    r = _strong_cache.get(p)
    if r is None:
        old = EXPAND["on"]
        EXPAND["on"] = True
        cache, FACTS_c = None, None
        try:
            r = rebuild(p, lambda a: None, {})
        finally:
            EXPAND["on"] = old
        _strong_cache[p] = r
    return r


def sym_id(p):
    (m, c), = p.terms.items()
    return m[0][0]


def atom_of(p):
    """the atom if p is exactly one atom to the power one"""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atoms[m[0][0]]
    return None


def all_atoms(p, seen=None):
    """all atoms reachable inside p"""
    if seen is None:
        seen = set()
    for i in atoms_of(p):
        if i in seen:
            continue
        seen.add(i)
        a = _atoms[i]
        if a.poly is not None:
            all_atoms(a.poly, seen)
        for x in a.args:
            if isinstance(x, Poly):
                all_atoms(x, seen)
    return seen


# ------------------------------------------------------------------ display
def show(p, depth=0):
    if not p.terms:
        return "0"
    if depth > 6:
        return "…"
    out = []
    for m, c in sorted(p.terms.items(), key=lambda t: _lead_key(t[0]))[:14]:
        fs = []
        for i, e in m:
            s = show_atom(_atoms[i], depth + 1)
            fs.append(s if e == 1 else f"{s}^{e}" if isinstance(e, int) and e > 0 else f"{s}^({e})")
        if c == 1 and fs:
            t = "*".join(fs)
        elif c == -1 and fs:
            t = "-" + "*".join(fs)
        else:
            t = "*".join([str(c) if c.denominator < 10**9 else repr(float(c))] + fs)
        out.append(t)
    if len(p.terms) > 14:
        out.append(f"…({len(p.terms)} terms)")
    return " + ".join(out).replace("+ -", "- ")


def show_atom(a, depth=0):
    if a.kind == "sym":
        return a.name
    if a.kind == "prime":
        return a.name
    if a.kind == "sum":
        return "(" + show(a.poly, depth) + ")"
    args = ", ".join(show(x, depth + 1) if isinstance(x, Poly) else str(x)[:40] for x in a.args)
    ex = f"[{a.extra}]" if a.extra is not None else ""
    return f"{a.name}{ex}({args})"
