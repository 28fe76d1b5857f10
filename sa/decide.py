"""Deciding layer: equality of gated values along all feasible paths, check bookkeeping."""
import json
import os
import sys
import time
from . import terms as T
from . import gated as G
from .terms import Poly
from .gated import Node, Tup, vkey, lift, b_and, b_or, b_not

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH_LIMIT = 4000
SIZE_LIMIT = 1500000


class Undecided(Exception):
    """the analysis cannot decide an obligation (check error, not a violation)"""


# ------------------------------------------------------------- numeric equality
def _lit_subst(lits, eqs):
    """substitution implied by the literals of a path: zero atoms, |x| with known sign"""
    mp = {}
    for v, i in lits:
        if v.kind == "sign" and i != 1:
            a = T.fabs(v.data)
            at = T.atom_of(a)
            if at is not None and at.kind == "fn" and at.name == "abs":
                mp[at.id] = v.data if i == 2 else -v.data
    for e in eqs:
        for m, c in e.terms.items():
            if len(m) == 1 and m[0][1] == 1 and T._atoms[m[0][0]].kind in ("sym", "fn"):
                a = T._atoms[m[0][0]]
                rest = -(e * T.const(1 / c)) + T.atom_poly(a)
                if a.id not in T.all_atoms(rest) and a.id not in mp:
                    mp[a.id] = rest
                    break
    return mp


def _on_path(v, lits):
    """leaf of a gated value on a path, or None when the path does not decide it"""
    d = {x.id: i for x, i in lits}
    while isinstance(v, Node):
        i = d.get(v.var.id)
        if i is None:
            return None
        v = v.kids[i]
    return v


def _zero_atoms(polys, lits):
    """inverse-function atoms that vanish on the path"""
    mp = {}
    for p in polys:
        for i in T.all_atoms(p):
            a = T._atoms[i]
            if a.kind == "fn" and a.name in ("atan2", "atan", "asin", "abs") and i not in mp:
                if _on_path(G.sign_of(T.atom_poly(a)), lits) == 0:
                    mp[i] = T.ZERO
    return mp


def by_continuity(x, generic, lits, eqs):
    """x equals a proven generic value once the angles that vanish on this path are set to zero"""
    for y in generic:
        mp = _zero_atoms([x, y], lits)
        if not mp:
            continue
        try:
            if T.is_zero(T.subst(x, mp) - T.subst(y, mp)):
                return True
            mp2 = _close({**_lit_subst(lits, eqs), **mp})
            if T.is_zero(T.subst(x, mp2) - T.subst(y, mp2)):
                return True
        except ZeroDivisionError:
            continue
    return False


def _close(mp):
    """apply the substitution to its own right-hand sides (bounded)"""
    for _ in range(3):
        new = {}
        ch = False
        for k, p in mp.items():
            q = T.subst(p, {j: r for j, r in mp.items() if j != k})
            ch = ch or q is not p
            new[k] = q
        mp = new
        if not ch:
            break
    return mp


def pinned(d, lits):
    """inverse-function atoms whose argument has a constant value by an equality of the path"""
    eqs = [v.data for v, i in lits if v.kind == "sign" and i == 1]
    if not eqs:
        return d
    mp = {}
    for i in T.all_atoms(d):
        a = T._atoms[i]
        if a.kind != "fn" or a.name not in ("acos", "asin", "atan") or len(a.args) != 1:
            continue
        q = a.args[0]
        for e in eqs:
            m = next((m for m in q.terms if m != () and m in e.terms), None)
            if m is None:
                continue
            k = (q - e * T.const(T.Fr(q.terms[m]) / e.terms[m])).const()
            if k is not None:
                mp[i] = T.call(a.name, [T.const(k)])
                break
    return T.subst(d, mp) if mp else d


def zero_on(d, lits, eqs):
    if T.is_zero(d):
        return True
    p = pinned(d, lits)
    if p is not d and T.is_zero(p):
        return True
    r = G.reduce_mod(d, eqs)
    if r is not d and T.is_zero(r):
        return True
    if eqs:
        prim = T.split_content(d)[2]
        if prim is not d and T.is_zero(G.reduce_mod(prim, eqs)):
            return True
    mp = _close(_lit_subst(lits, eqs))
    if mp:
        try:
            q = T.subst(d, mp)
        except ZeroDivisionError:
            return False
        if T.is_zero(q):
            return True
        # abs of quantities that became signed after substitution, and congruence
        q2 = T.subst(q, _close(_lit_subst(lits, eqs)))
        if T.is_zero(q2):
            return True
    return False


def turns(d):
    """d is a whole number of turns"""
    for m, c in d.terms.items():
        pi = 0
        for i, e in m:
            a = T._atoms[i]
            if T.atom_poly(a) is T.PI:
                pi = e
            elif not (a.kind == "fn" and a.name in ("floor", "int", "round")) or not (isinstance(e, int) and e > 0):
                return False
        if pi != 1 or c.denominator != 1 or c.numerator % 2:
            return False
    return True


def same_angle(a, b, lits=(), eqs=()):
    a, b = pinned(a, lits), pinned(b, lits)
    d = a - b
    if turns(d) or turns(G.reduce_mod(d, eqs)):
        return True
    mp = _close(_lit_subst(lits, eqs))
    if mp:
        try:
            a, b = T.subst(a, mp), T.subst(b, mp)
        except ZeroDivisionError:
            return False
        if turns(a - b):
            return True
    return T.is_zero(T.fsin(a) - T.fsin(b)) and T.is_zero(T.fcos(a) - T.fcos(b))


def project(f, keep, memo=None, limit=60000):
    """exists v not in keep. f   (over-approximation when the diagram would grow too large)"""
    if memo is None:
        memo = {}
    if not isinstance(f, Node) or not (f.supp & ~keep):
        return f
    r = memo.get(f.uid)
    if r is not None:
        return r[0]
    kids = [project(k, keep, memo, limit) for k in f.kids]
    if keep >> f.var.id & 1:
        r = G.node(f.var, kids)
    else:
        r = False
        for k in kids:
            r = b_or(r, k)
            if r is True:
                break
        if isinstance(r, Node) and r.size > limit:
            r = True
    memo[f.uid] = (r,)
    return r


def var_atoms(v):
    if v.kind != "sign":
        return frozenset()
    r = _va.get(v.id)
    if r is None:
        r = _va[v.id] = frozenset(T.all_atoms(v.data))
    return r


_va = {}


def supp_vars(mask):
    i = 0
    out = []
    while mask:
        if mask & 1:
            out.append(G._varlist[i])
        mask >>= 1
        i += 1
    return out


def levels(pc, *vals):
    """weaker and weaker projections of the path condition: variables of the obligation first,
    then those sharing quantities with it, finally the whole condition"""
    supp = 0
    for v in vals:
        if isinstance(v, Node):
            supp |= v.supp
    if not isinstance(pc, Node) or not (pc.supp & ~supp):
        yield pc, True
        return
    keep = supp
    last = None
    pcv = supp_vars(pc.supp)
    for depth in range(3):
        cur = project(pc, keep)
        if last is None or G.vkey(cur) != last:
            yield cur, False
            last = G.vkey(cur)
        atoms = set()
        for v in supp_vars(keep):
            atoms |= var_atoms(v)
        new = keep
        for v in pcv:
            if var_atoms(v) & atoms:
                new |= 1 << v.id
        if new == keep:
            break
        keep = new
    yield pc, True


class TooMany(Exception):
    pass


def differences(got, want, pc=True, angle=False, scale=None):
    """paths on which got != want: list of (literals, got leaf, want leaf); empty = proved equal.
    Paths that are empty for the linear-arithmetic domain are skipped."""
    got, want = G.restrict(got, pc), G.restrict(want, pc)
    if G.same(got, want):
        return []
    generic = {}

    def leaf(x, y):
        if vkey(x) == vkey(y):
            return True
        px, py = num(x), num(y)
        if px is not None and py is not None:
            if T.is_zero(px - py):
                generic.setdefault(vkey(py), []).append(px)
                return True
            if angle and same_angle(px, py):
                return True
            return Pair(px, py)
        return Pair(x, y)

    d = lift(leaf, got, want)
    if d is True:
        return []
    best = None
    for p, whole in levels(pc, d):
        try:
            out = _differences(d, p, angle, generic)
        except TooMany:
            if whole:
                if best:
                    return best
                raise Undecided(f"more than {PATH_LIMIT} candidate paths")
            continue
        if not out:
            return []
        best = out
        if whole:
            return out


def _conj(lits):
    c = True
    for v, i in sorted(lits, key=lambda l: -l[0].id):
        c = G.node(v, [c if j == i else False for j in range(v.arity)])
    return c


def _core(lits, test):
    """small subset of the literals that still passes the test"""
    keep = list(lits)
    n = max(1, len(keep) // 2)
    while n >= 1:
        i = 0
        while i < len(keep):
            trial = keep[:i] + keep[i + n:]
            if test(trial):
                keep = trial
            else:
                i += n
        n //= 2
    return keep


def _empty(lits):
    ok, eqs = G.feasible(lits)
    return not ok or not lits_consistent(lits, eqs)


def _differences(d, pc, angle, generic):
    """paths to unequal leaves; every excluded path excludes all paths sharing its reason"""
    if isinstance(pc, Node):
        d = G.ite(pc, d, True)
    out = []
    n0 = len(G._nodes)
    for n in range(PATH_LIMIT):
        if d is True:
            return out
        lits, lf = next(G.paths(d, lambda x: x is not True))
        if _empty(lits):
            d = G.ite(_conj(_core(lits, _empty)), True, d)
        elif _equal_leaf(lf, lits, angle, generic):
            c = _core(lits, lambda l: _equal_leaf(lf, l, angle, generic))
            d = G.ite(_conj(c), lift(lambda x: True if x is lf or x == lf else x, d), d)
        else:
            out.append((lits, lf.a, lf.b))
            if len(out) >= 5:
                return out
            d = G.ite(_conj(lits), True, d)
        if len(G._nodes) - n0 > SIZE_LIMIT:
            break
    if out:
        return out
    raise TooMany()


def _equal_leaf(lf, lits, angle, generic):
    if isinstance(lf.a, Poly) and isinstance(lf.b, Poly):
        ok, eqs = G.feasible(lits)
        return zero_on(lf.a - lf.b, lits, eqs) or (angle and same_angle(lf.a, lf.b, lits, eqs)) or by_continuity(lf.a, generic.get(vkey(lf.b), ()), lits, eqs)
    return isinstance(lf.a, Poly) is False and isinstance(lf.b, Poly) is False and vkey(lf.a) == vkey(lf.b)


def num(x):
    if isinstance(x, bool):
        return T.const(int(x))
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return T.const(x)
    try:
        return T.to_poly(x)
    except Exception:
        return None


class Pair:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __hash__(self):
        return hash((vkey(self.a), vkey(self.b)))

    def __eq__(self, o):
        return isinstance(o, Pair) and vkey(self.a) == vkey(o.a) and vkey(self.b) == vkey(o.b)

    def __repr__(self):
        return f"{self.a} vs {self.b}"


def refute(cond, pc=True):
    """feasible paths on which cond is false under pc (empty = cond holds)"""
    bad = b_and(pc, b_not(cond))
    if bad is False:
        return []
    neg = b_not(cond)
    best = None
    for p, whole in levels(pc, neg):
        try:
            out = _refute(b_and(p, neg))
        except TooMany:
            if whole:
                if best:
                    return best
                raise Undecided(f"more than {PATH_LIMIT} candidate paths")
            continue
        if not out:
            return []
        best = out
        if whole:
            return out


def _refute(bad):
    out = []
    n0 = len(G._nodes)
    for n in range(PATH_LIMIT):
        if bad is False:
            return out
        lits, _ = next(G.paths(bad, lambda x: x is True))
        if _empty(lits):
            bad = G.ite(_conj(_core(lits, _empty)), False, bad)
        else:
            out.append(lits)
            if len(out) >= 5:
                return out
            bad = G.ite(_conj(lits), False, bad)
        if len(G._nodes) - n0 > SIZE_LIMIT:
            break
    if out:
        return out
    raise TooMany()


def lits_consistent(lits, eqs):
    """sign literals after substituting what the path fixes"""
    mp = _close(_lit_subst(lits, eqs))
    if not mp:
        return True
    for v, i in lits:
        if v.kind != "sign":
            continue
        try:
            q = T.subst(v.data, mp)
        except ZeroDivisionError:
            continue
        c = q.const()
        if c is not None:
            if ((c > 0) - (c < 0)) != i - 1:
                return False
        else:
            s = T.sign(q)
            if s == "+" and i != 2 or s == "-" and i != 0 or s == "0" and i != 1 or s == "0+" and i == 0 or s == "0-" and i == 2:
                return False
    return True


# ------------------------------------------------------------------ bookkeeping
class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obligations = []        # (rule, description)
        self.violations = []
        self.functions = set()
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.samples = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def used(self, it):
        for q in it.calls:
            self.functions.add(q)

    def merge(self, o):
        self.obligations += o.obligations
        self.functions |= o.functions
        for k, n in o.counts.items():
            self.count(k, n)
        self.samples = (self.samples + o.samples)[:12]
        for v in o.violations:
            if not any(w["key"] == v["key"] for w in self.violations):
                self.violations.append(v)

    def violate(self, where, rule, detail, **extra):
        key = f"{where}: {rule}"
        for v in self.violations:
            if v["key"] == key:
                v["more"] = v.get("more", 0) + 1
                return
        self.violations.append(dict(key=key, where=where, rule=rule, detail=detail, **extra))

    def ok(self, rule, desc):
        self.obligations.append((rule, desc))
        if len(self.samples) < 12:
            self.samples.append(f"{rule}: {desc}")

    def eq(self, rule, got, want, where, pc=True, angle=False):
        """obligation got == want on every feasible path"""
        self.ok(rule, where)
        ds = differences(got, want, pc, angle)
        for lits, a, b in ds[:1]:
            self.violate(where, rule, f"on path [{G.show_path(lits)[:600]}] the source computes {str(a)[:400]} where {str(b)[:400]} is required")
        return not ds

    def eq_any(self, rule, got, wants, where, pc=True, angle=False):
        """obligation: got equals one of several equivalent forms"""
        self.ok(rule, where)
        first = None
        g = G.restrict(got, pc)
        if any(G.same(g, G.restrict(w, pc)) for w in wants):
            return True
        for w in wants:
            ds = differences(got, w, pc, angle)
            if not ds:
                return True
            first = first or ds
        lits, a, b = first[0]
        self.violate(where, rule, f"on path [{G.show_path(lits)[:600]}] the source computes {str(a)[:400]} where {str(b)[:400]} is required")
        return False

    def holds(self, rule, cond, where, pc=True, detail=""):
        self.ok(rule, where)
        ps = refute(cond, pc)
        for lits in ps[:1]:
            self.violate(where, rule, f"violated on path [{G.show_path(lits)[:900]}] {detail}")
        return not ps

    def holds_any(self, rule, conds, where, pc=True):
        """obligation: the condition, in one of several equivalent forms"""
        self.ok(rule, where)
        first = None
        for c in conds:
            ps = refute(c, pc)
            if not ps:
                return True
            first = first or ps
        self.violate(where, rule, f"violated on path [{G.show_path(first[0])[:900]}]")
        return False

    def must(self, rule, flag, where, detail=""):
        self.ok(rule, where)
        if not flag:
            self.violate(where, rule, detail)
        return flag

    def floor(self, name, n):
        """anchors vanished if fewer instances than expected were analysed"""
        if self.counts.get(name, 0) < n:
            raise Undecided(f"only {self.counts.get(name, 0)} instances of '{name}' found, at least {n} expected")

    # ------------------------------------------------------------- reporting
    def finish(self):
        known = known_findings(self.pid)
        new = []
        for v in self.violations:
            if v["key"] in known:
                print(f"KNOWN-FINDING: property={self.pid} {known[v['key']]}")
            else:
                new.append(v)
        ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {
            "explanation": "Static value-graph analysis of /repo's current source; every obligation is decided on all feasible paths of the analysed functions, nothing is executed.",
            "rules": self.rules,
            "obligations": len(self.obligations),
            "discharged": len(self.obligations) - len(self.violations) if len(self.violations) < len(self.obligations) else 0,
            "distinct_obligations": len(set(self.obligations)),
            "functions_analysed": sorted(self.functions),
            "counts": self.counts,
            "samples": self.samples,
        }
        rep = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other", coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(new))
        with open(os.path.join(ev, f"{self.pid}.json"), "w") as f:
            json.dump(rep, f, indent=1)
        if new:
            path = os.path.join(ev, f"{self.pid}.replay.json")
            with open(path, "w") as f:
                json.dump(new, f, indent=1)
            for v in new:
                print(f"{v['where']}: {v['rule']}: {v['detail']}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid}: {len(self.obligations)} obligations hold ({rep['wall_s']} s)")
        return 0


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line[6:].split(" | ") if "=" in x)
                f = {k.strip(): v.strip() for k, v in f.items()}
                if f.get("property") == pid:
                    out[f["key"]] = f.get("what", f["key"])
    return out
