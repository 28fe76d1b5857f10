"""C03 arguments of inverse sine / cosine"""
import ast
from .common import *
from sa.pkg import modules, REPO

NAMES = {"arccos", "acos", "arcsin", "asin"}


def sites():
    """all syntactic calls of an inverse sine or cosine in the package"""
    out = set()
    for m in modules():
        path = os.path.join(REPO, m.replace(".", "/") + ".py")
        tree = ast.parse(open(path).read())
        for n in ast.walk(tree):
            f = n.func if isinstance(n, ast.Call) else None
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in NAMES:
                out.add((m, n.lineno, name))
    return out


def run(chk):
    chk.rule("on every path to an inverse sine/cosine call the argument is a constant in [-1, 1], itself a sine or cosine, or bounded below by -1 and above by 1 through comparisons made on that path")
    chk.assumptions += ["floating-point sine and cosine lie in [-1, 1]; a quotient of rounded norms is not assumed to"]
    w = World()
    it = w.it
    T.reset_facts()
    mu = S("mu", pos=True)
    state = [S(n) for n in ("x", "y", "z", "vx", "vy", "vz")]
    oe = [S(f"oe{i}") for i in range(6)]
    oeT = [S(f"oeT{i}") for i in range(5)]
    wt = [S(f"w{i}") for i in range(5)]
    tol = [S(f"tol{i}", pos=True) for i in range(5)]
    it.domain.clear()

    def go(name, args):
        st = w.state()
        w.call(name, [w.arr(st, a) if isinstance(a, list) else a for a in args], st)
        chk.count("functions entered")

    for n in ("get_inclination", "get_raan"):
        go(n, [state])
    for n in ("get_eccentricity", "get_omega", "get_trueanom", "get_semiMajorAxis", "get_period", "sv2kep"):
        go(n, [state, mu])
    for n in ("kep2sv", "mee_with_a2sv"):
        go(n, [oe, mu])
    go("get_orbit_coordinates", [oe, mu, 3])
    for n in ("kep2mee", "mee2kep", "mee_with_a2mee", "mee_with_a2kep", "mee2mee_with_a", "kep2mee_with_a", "mee2ea"):
        go(n, [oe])
    go("ta2ea", [oe[5], oe[1]])
    for n in ("check_convergence_keplerian", "check_convergence_mee"):
        go(n, [oe, oeT, wt, tol])
    for n in ("symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"):
        go(n, [])
    go("_u_to_thrust_angles", [state[:3]])
    go("perturbation_third_body_battin", [state[:3], state[3:], mu])
    st = w.state()
    w.call("pxformECI2RTN", [w.arr(st, state[:3]), w.arr(st, state[3:])], st)
    chk.count("functions entered")
    seen = set()
    for pc, name, x, mod, fn, line in it.domain:
        seen.add((mod, line))
        where = f"{mod.replace('.', '/')}.py: {fn} (line {line})"
        bounded(chk, where, name, x, pc)
        chk.count("inverse-function evaluations")
    for m, line, name in sites():
        chk.count("call sites in the source")
        if not any(m == a and abs(line - b) <= 12 for a, b in seen):
            raise Undecided(f"{name} call at {m}:{line} is not reached by the analysed functions")
    chk.used(it)


def bounded(chk, where, name, x, pc):
    def ok(v):
        if not isinstance(v, T.Poly):
            n = num(v)
            if n is None:
                return False
            v = n
        c = v.const()
        if c is not None:
            return -1 <= c <= 1
        a = T.atom_of(v)
        if a is None:
            a = T.atom_of(-v)
        if a is not None and a.kind == "fn" and a.name in ("sin", "cos"):
            return True
        lo = lift(lambda s: s >= 0, G.sign_of(v + 1))
        hi = lift(lambda s: s <= 0, G.sign_of(v - 1))
        return b_and(lo, hi)
    x = G.restrict(x, pc)
    cond = False
    for leaf, c in G.leaves(x):
        cond = b_or(cond, b_and(c, ok(leaf)))
    chk.holds(f"argument of {name} lies in [-1, 1]", cond, where, pc)
