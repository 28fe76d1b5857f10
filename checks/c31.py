"""C31 no division by zero: compiled functions raise on it, and so do plain Python numbers"""
from .common import *
from . import run as R
from .c02 import spec

AX = ["x", "y", "z", "vx", "vy", "vz"]


def run(chk):
    chk.rule("the denominator of every scalar division executed by a compiled function, and of every division by a problem setting or recorded quantity in the propagation loop, is non-zero on every feasible path for valid orbits and settings")
    chk.assumptions += ["the cosine of a floating-point number is never exactly zero", "elliptic orbits with non-zero angular momentum, spacecraft not at a perturbing body", "positive gravitational parameter, mass at the start of a step and tolerance",
                        "real arithmetic: a quantity is zero exactly where its formula is", "divisions of arrays, and by results of the control law (NumPy numbers), yield undefined numbers instead of an error"]
    w = World()
    it = w.it
    it.div_log = []
    mu = S("mu", pos=True)
    elements(chk, w, mu)
    cartesian(chk, w, mu)
    kernels(chk, w, mu)
    chk.used(it)
    it.div_log = None
    steps(chk)
    chk.floor("functions entered", 40)
    chk.floor("divisions", 60)


def judge(chk, w, what, compiled=True, skip=lambda d: False):
    """every logged division has a non-zero denominator"""
    it = w.it
    log, it.div_log = it.div_log, []
    for pc, a, b, jit, mod, fn, line in log:
        if mod.startswith("spec.") or jit is not compiled or pc is False:
            continue
        if num_const(b):
            chk.must("denominator is not the constant zero", num(b) is None or num(b) is not T.ZERO, f"{mod.replace('.', '/')}.py: {fn} (line {line})", what)
            continue
        if skip(b):
            continue
        chk.count("divisions")
        ok = lift(nonzero, b)
        chk.holds("denominator is not zero", ok, f"{mod.replace('.', '/')}.py: {fn} (line {line})", pc, f"({what})")


def num_const(b):
    return not isinstance(b, Node) and (isinstance(b, (int, float)) or (isinstance(b, T.Poly) and b.is_const()))


def nonzero(v):
    p = num(v)
    if p is None:
        return True                 # not a number of the model (undefined number)
    return b_or(nz(p), lift(lambda s: s != 0, G.sign_of(p)) if T.sign(p) != "0" else False)


def nz(p):
    """a polynomial is non-zero: every factor is"""
    sg = T.sign(p)
    if sg in ("+", "-"):
        return True
    if sg == "0":
        return False
    if bounded(p):
        return True
    c, mono, facs = T.factor(p)
    if c == 0:
        return False
    ok = True
    parts = [T._atoms[i] for i in mono]
    for a in parts:
        if a.kind == "sum":
            ok = b_and(ok, nz(a.poly))
        elif a.kind == "fn" and a.name == "cos":
            continue                # no floating-point number has a cosine of exactly zero
        elif T._atom_sign(a) not in ("+", "-"):
            ok = b_and(ok, lift(lambda s: s != 0, G.sign_of(T.atom_poly(a, 1))))
    for f, n in facs:
        ok = b_and(ok, (nz(f) if f is not p else lift(lambda s: s != 0, G.sign_of(p))))
    return ok


def bounded(p):
    """|the part with a sine or cosine factor| < |the rest|"""
    trig = {m: c for m, c in p.terms.items() if any(T._atoms[i].kind == "fn" and T._atoms[i].name in ("sin", "cos") and e == 1 for i, e in m)}
    if len(trig) != 1:
        return False
    (m, c), = trig.items()
    rest = T.make({k: v for k, v in p.terms.items() if k not in trig})
    left = tuple((i, e) for i, e in m if not (T._atoms[i].kind == "fn" and T._atoms[i].name in ("sin", "cos") and e == 1))
    return T.sign(rest * rest - T.make({left: c}) ** 2) == "+"


def go(chk, w, what, name, args, kw=None):
    st = w.state()
    a = [w.arr(st, v) if isinstance(v, list) else v(st) if callable(v) else v for v in args]
    w.call(name, a, st, kw)
    chk.count("functions entered")
    judge(chk, w, what + ", " + name)
    return st


KEP = {
    "elliptic": lambda a, e, i, O, o, t: [a, e, i, O, o, t], "circular": lambda a, e, i, O, o, t: [a, T.ZERO, i, O, o, t],
    "equatorial": lambda a, e, i, O, o, t: [a, e, T.ZERO, O, o, t], "circular equatorial": lambda a, e, i, O, o, t: [a, T.ZERO, T.ZERO, O, o, t],
    "retrograde equatorial": lambda a, e, i, O, o, t: [a, e, T.PI, O, o, t], "polar": lambda a, e, i, O, o, t: [a, e, T.PI / 2, O, o, t],
    "at periapsis": lambda a, e, i, O, o, t: [a, e, i, T.ZERO, T.ZERO, T.ZERO], "at apoapsis": lambda a, e, i, O, o, t: [a, e, i, O, o, T.PI],
}

EXACT = ("retrograde equatorial", "polar", "at apoapsis")       # multiples of pi have no exact floating-point value; their position and velocity may


def kep(case):
    x = KEP[case](*orbit_kep())
    for q in (1 + x[1] * T.fcos(x[5]), 1 - x[1] * T.fcos(x[5])):
        if not q.is_const():
            T.assume_pos(q)
    return x


def mee(case):
    a, f, g, h, k, l = orbit_mee()
    z = T.ZERO
    f, g, h, k = {"generic": (f, g, h, k), "circular": (z, z, h, k), "equatorial": (f, g, z, z), "circular equatorial": (z, z, z, z),
                  "g = 0": (f, z, h, k), "f = 0": (z, g, h, k), "h = 0": (f, g, z, k), "k = 0": (f, g, h, z)}[case]
    T.reset_facts()
    e = T.fsqrt(f**2 + g**2)
    om = T.fatan2(g, f)
    for q in (1 - f**2 - g**2, 1 - f, 1 + f, 1 - g, 1 + g, 1 - f**2, 1 - g**2, 1 - e, 1 + e, 1 + f * T.fcos(l) + g * T.fsin(l), 1 + e * T.fcos(l - om), 1 + h**2 + k**2):
        if not q.is_const():
            T.assume_pos(q)
    return [a, f, g, h, k, l]


MEE = ("generic", "circular", "equatorial", "circular equatorial", "g = 0", "f = 0", "h = 0", "k = 0")


def cols(w, st, x):
    return w.it.new_list(st, x)


def rate_args(w, x, mu):
    def arg(st):
        c = [w.it.new_list(st, [S(f"psi{j}{i}") for i in range(5)]) for j in range(3)]
        return Tup([mu, w.arr(st, [S(f"u{j}") for j in range(3)])] + c + [w.arr(st, [S(f"d{j}") for j in range(3)])])
    return [S("t"), x, arg]


def elements(chk, w, mu):
    for case in KEP:
        if case in EXACT:
            continue
        x = kep(case)
        for n in ("kep2mee", "kep2mee_with_a"):
            go(chk, w, case, n, [x])
        go(chk, w, case, "kep2sv", [x, mu])
        go(chk, w, case, "get_orbit_coordinates", [x, mu, 3])
        go(chk, w, case, "ta2ea", [x[5], x[1]])
        if x[1] is not T.ZERO:
            go(chk, w, case, "eom_kep_gauss", rate_args(w, x, mu))
        p = list(x)
        p[0] = S("p", pos=True)
    for case in MEE:
        x = mee(case)
        for n in ("mee_with_a2mee", "mee_with_a2kep", "mee2ea"):
            go(chk, w, case, n, [x])
        go(chk, w, case, "mee_with_a2sv", [x, mu])
        go(chk, w, case, "eom_mee_with_a_gauss", rate_args(w, x, mu))
        p = [S("p", pos=True)] + x[1:]
        for n in ("mee2kep", "mee2mee_with_a"):
            go(chk, w, case, n, [p])
        go(chk, w, case, "eom_mee_gauss", rate_args(w, p, mu))


def cartesian(chk, w, mu):
    for case in KEP:
        x = kep(case)
        r, st = spec(w, "kep2sv", [x, mu])
        s = w.elems(st, r)
        w.it.div_log.clear()
        for n in ("get_inclination", "get_raan"):
            go(chk, w, case, n, [s])
        for n in ("get_eccentricity", "get_omega", "get_trueanom", "get_semiMajorAxis", "get_period", "sv2kep"):
            go(chk, w, case, n, [s, mu])
        go(chk, w, case, "pxformECI2RTN", [s[:3], s[3:]])


def kernels(chk, w, mu):
    T.reset_facts()
    vec = lambda n: [S(f"{n}{c}") for c in "xyz"]
    for zero in ((), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
        u = [T.ZERO if j in zero else S(f"u{j}") for j in range(3)]
        T.reset_facts()
        if len(zero) < 2:
            T.assume_pos(sum((x * x for x in u), T.ZERO))
        else:
            u = [T.ZERO if j in zero else S(f"up{j}", pos=True) * sg for j in range(3) for sg in (1,)]
        st = go(chk, w, "direction with zero components " + str(list(zero)), "_u_to_thrust_angles", [u])
    T.reset_facts()
    r, s = vec("r"), vec("s")
    d2 = sum(((a - b) ** 2 for a, b in zip(r, s)), T.ZERO)
    for q in (d2, sum((a * a for a in r), T.ZERO), sum((a * a for a in s), T.ZERO)):
        T.assume_pos(q)
    T.assume_pos(1 + T.fsqrt(d2))
    go(chk, w, "distinct bodies", "perturbation_third_body_battin", [r, s, S("gm", pos=True)])
    m = lambda st: w.it.new_array(st, (3, 3), [S(f"T{i}{j}") for i in range(3) for j in range(3)])
    go(chk, w, "outside the body", "perturbation_J2", [r, m, mu, S("J2"), S("Re", pos=True)])
    go(chk, w, "away from the Sun", "perturbation_SRP", [r, S("AU", pos=True), S("k", pos=True)])
    T.reset_facts()
    oe, oeT, wt = [S(f"oe{i}") for i in range(6)], [S(f"oeT{i}") for i in range(5)], [S(f"w{i}") for i in range(5)]
    tol = [S(f"tol{i}", pos=True) for i in range(5)]
    for n in ("check_convergence_keplerian", "check_convergence_mee"):
        go(chk, w, "any state", n, [oe, oeT, wt, tol])
    go(chk, w, "any state", "elements_safety", [oe, [S(f"lo{i}") for i in range(6)], [S(f"hi{i}") for i in range(6)]])
    for n in ("rotmat1", "rotmat2", "rotmat3"):
        go(chk, w, "any angle", n, [S("phi")])
    # integrators: arbitrary slopes, also identical ones
    for same in (False, True):
        def rhs(it, st, args, kw, same=same):
            key = "K" if same else "K" + str(len(calls))
            calls.append(1)
            return it.new_array(st, (2,), [S(f"{key}_{j}") for j in range(2)])
        for n in ("rk4", "rkf45"):
            T.reset_facts()
            calls = []
            go(chk, w, "constant slope" if same else "any slopes", n, [OpaqueFn("rhs", rhs), S("t"), S("h"), [S("y0"), S("y1")], Opq("params")] + ([S("tol", pos=True)] if n == "rkf45" else []))


CONFIGS = [dict(elements="mee_with_a", integrator="rkf45"), dict(elements="keplerian"), dict(elements="mee_with_a", sundman=True, eta="zero"), dict(elements="keplerian", sundman=True, eta="call", integrator="rkf45")]
RATES = {"no discharge": (S("rc", pos=True), T.ZERO), "no charging": (T.ZERO, S("rd", pos=True)), "neither": (T.ZERO, T.ZERO)}


def steps(chk):
    """the propagation loop divides by no setting that may be zero (settings may be plain Python numbers)"""
    n = 0
    for cfg in CONFIGS:
        for what, rates in RATES.items():
            if chk.tier != "thorough" and (cfg, what) not in ((CONFIGS[0], "no discharge"), (CONFIGS[1], "neither"), (CONFIGS[2], "no charging")):
                continue
            r = R.Run(hook=False, log=True, verbosity=0, duty=cfg["elements"] == "keplerian", problem={"battery_charge_discharge_rate": Tup(list(rates))}, **cfg)
            log, r.it.div_log = r.it.div_log, None
            for pc, a, b, jit, mod, fn, line in log:
                if jit or not mod.startswith("pyqlaw.") or pc is False:
                    continue
                chk.count("divisions in the propagation loop")
                if num_const(b):
                    if num(b) is T.ZERO or b == 0:
                        chk.holds("the loop does not divide by a setting that is zero", False, f"{mod.replace('.', '/')}.py: {fn} (line {line})", pc, f"({r.name()}, battery: {what})")
                    else:
                        chk.must("denominator is not the constant zero", True, f"{mod.replace('.', '/')}.py: {fn} (line {line})")
            n += 1
            chk.used(r.it)
    chk.count("loop configurations", n)
