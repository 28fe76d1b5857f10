"""C11 anomaly-based step"""
from .run import *
from .c15 import configs

CONFIGS = [dict(elements=e, integrator=i, sundman=True, duty=False, batt=False, eta="zero") for e in P for i in ("rk4", "rkf45")]
PLAIN = [dict(elements=e, integrator=i, duty=False, batt=False, eta="zero") for e in P for i in ("rk4", "rkf45")]
BATT = [dict(elements=e, sundman=True, eta="zero", integrator=i) for e, i in (("mee_with_a", "rkf45"), ("keplerian", "rk4"))]
FORMS = ["", "_half", "_atan2"]


def orbit(r):
    """the generic elliptic state in polar form: substitution and Keplerian-like elements"""
    x = [num(v) for v in r.x]
    if r.elements == "keplerian":
        return {}, x
    e, om, th = S("ecc", pos=True), S("long of periapsis"), S("anomaly")
    T.assume_pos(1 - e)
    T.assume_pos(1 + e * T.fcos(th))
    a, f, g, h, k, L = x
    mp = {T.sym_id(f): e * T.fcos(om), T.sym_id(g): e * T.fsin(om), T.sym_id(L): th + om}
    at = T.fatan2(g, f)
    if T.atom_of(at) is not None:
        mp[T.atom_of(at).id] = om
    return mp, [a, e, T.ZERO, T.ZERO, om, th]


def run(chk):
    chk.rule("with the option on, the recorded time difference of every step equals sqrt(a^3/mu) (dE - e (sin(E+dE) - sin E)) with E the eccentric anomaly of the state the step starts from and dE the requested increment; without it, the requested time step; only the battery limit may shorten it")
    chk.assumptions += ["elliptic orbits (0 < e < 1, a > 0), real arithmetic", "the sign follows from the formula: E - e sin E is increasing for e < 1", "equinoctial elements: (f, g) = e (cos w, sin w) with w in (-pi, pi]"]
    for r in configs(chk, CONFIGS + PLAIN + BATT, []):
        if r.sundman:
            mp, x = orbit(r)
        for k, s in r.ends():
            chk.count("step ends")
            dt = r.dt(s)
            if r.sundman:
                dt = lift(lambda v: v if num(v) is None else T.subst(num(v), mp), dt)
                wants = [r.it.call(r.w.spec("flight", "keplerian" + f), [r.w.arr(s, x), r.user("t_step", s), r.user("mu", s)], {}, s) for f in FORMS]
            else:
                wants = [r.user("t_step", s)]
            if r.cfg["battery"]:
                lim = r.it.binop("Div", r.it.binop("Sub", r.prev(s, "battery"), r.lo, s), S("rd", pos=True), s)
                dt = lift(lambda v: None if T.is_zero(num(v) - num(lim)) else v, dt)
                part = lift(lambda v: v is not None, dt)
                chk.must("the battery limit does not replace every step", b_and(part, s.pc) is not False, r.where, r.name())
                chk.eq_any("the step spans the requested eccentric anomaly unless it ends where the battery is empty", lift(lambda v: T.ZERO if v is None else v, dt), wants, r.where, b_and(part, s.pc))
                chk.count("battery")
            else:
                chk.eq_any("the step spans the requested eccentric anomaly" if r.sundman else "the requested time step is used", dt, wants, r.where, s.pc)
    chk.floor("step ends", 12)
