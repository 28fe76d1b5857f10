"""C15 propellant accounting"""
from .run import *

CONFIGS = [dict(), dict(elements="keplerian", integrator="rkf45", eta="call"), dict(sundman=True, duty=False, batt=False), dict(elements="keplerian", sundman=True, ptrb=False, eta="zero"), dict(integrator="rkf45", sundman=True, eta="mixed")]
MORE = [dict(elements=e, integrator=i, sundman=s, eta=t) for e in P for i in ("rk4", "rkf45") for s in (False, True) for t in ("float", "zero")]


def configs(chk, quick, more):
    for kw in quick + (more if chk.tier == "thorough" else []):
        r = Run(**kw)
        chk.used(r.it)
        chk.count("configurations")
        yield r


def throttle(chk, r, s):
    """recorded throttle; only the values 0 and 1 occur"""
    c = r.recorded(s, "controls")
    if not isinstance(c, list) or len(c) != 3:
        raise Undecided("a recorded control does not have three entries")
    t = G.restrict(c[2], s.pc)
    return t


def is_on(t):
    return lift(lambda x: num(x) is not None and lift(lambda v: v == 0, G.sign_of(num(x) - 1)), t)


def run(chk):
    chk.rule("on every way a step can end: recorded mass difference = -(mass-flow rate) x recorded time difference x recorded throttle, the throttle is 0 or 1, and the thrust acceleration handed to the control law is sign(step) x maximal thrust / mass at the start of the step")
    chk.assumptions += ["real arithmetic", "control law, integrator, convergence test and perturbation are arbitrary functions of their arguments"]
    for r in configs(chk, CONFIGS, MORE):
        for k, s in r.ends():
            chk.count("step ends")
            t = throttle(chk, r, s)
            chk.holds("the recorded throttle is 0 or 1", lift(lambda x: num(x) is not None and (T.is_zero(num(x)) or T.is_zero(num(x) - 1)), t), r.where, s.pc, r.name())
            m0, m1 = r.prev(s, "masses"), r.recorded(s, "masses")
            want = ite(is_on(t), r.it.binop("Sub", m0, r.it.binop("Mult", r.user("mdot", s), r.dt(s), s), s), m0)
            chk.eq("mass changes by mass-flow rate times elapsed time exactly when the throttle is one", m1, want, r.where, s.pc)
        k, s = r.ends()[-1]
        evs = r.events(s, "law")
        chk.count("control law evaluations", len(evs))
        for e in evs:
            chk.eq("thrust acceleration is maximal thrust over current mass with the sign of the step", e.args[1], r.accel(s), e.where(), b_and(e.pc, s.pc))
    chk.floor("step ends", 10)
    chk.floor("control law evaluations", 5)
