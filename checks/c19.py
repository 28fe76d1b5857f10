"""C19 the recorded control is the applied control"""
from .run import *
from .c15 import configs, throttle, is_on

CONFIGS = [dict(), dict(elements="keplerian", integrator="rkf45", eta="call", batt=False), dict(sundman=True, duty=False, eta="zero"), dict(elements="keplerian", sundman=True, ptrb=False, eta="mixed", duty=False, batt=False), dict(integrator="rkf45", eta="zero")]
MORE = [dict(elements=e, integrator=i, sundman=s, eta=t) for e in P for i in ("rk4", "rkf45") for s in (False, True) for t in ("float", "zero")]


def run(chk):
    chk.rule("on every way a step ends, the thrust acceleration in the integrator's parameters equals the thrust acceleration of the step times (cos b sin a, cos b cos a, sin b) of the recorded angles where the recorded throttle is one, and zero where it is zero; the recorded angles, Q and rate of Q are those of the control law at the state from which the step starts")
    chk.assumptions += ["real arithmetic", "control law, integrator, convergence test and perturbation are arbitrary functions of their arguments"]
    for r in configs(chk, CONFIGS, MORE):
        for k, s in r.ends():
            one(chk, r, k, s)
    chk.floor("step ends", 12)
    chk.floor("integrator calls", 12)


def one(chk, r, k, s):
    it, w = r.it, r.where
    chk.count("step ends")
    c = r.recorded(s, "controls")
    on = is_on(throttle(chk, r, s))
    al, be = c[0], c[1]
    d = [lift(lambda a, b: T.fcos(num(b)) * T.fsin(num(a)), al, be), lift(lambda a, b: T.fcos(num(b)) * T.fcos(num(a)), al, be), lift(lambda b: T.fsin(num(b)), be)]
    acc = r.accel(s)
    laws = r.events(s, "law")
    if not chk.must("the control law is evaluated in every step", bool(laws), w, r.name()):
        return
    chk.holds("the control law is evaluated in every step", r.cover(laws), w, s.pc)
    for e in r.events(s, "integ"):
        chk.count("integrator calls")
        pc = b_and(e.pc, s.pc)
        u = e.args[3][1]
        if not chk.must("the dynamics receive a thrust vector", isinstance(u, list) and len(u) == 3, e.where(), str(u)):
            continue
        for i in range(3):
            chk.eq("with throttle one the applied thrust is the thrust acceleration along the recorded angles", u[i], it.binop("Mult", acc, d[i], s), e.where(), b_and(pc, on))
            chk.eq("with throttle zero no thrust is applied", u[i], T.ZERO, e.where(), b_and(pc, b_not(on)))
    x0 = r.prev(s, "states")
    if r.elements == "keplerian":
        x0 = r.clean(s, x0)
    for e in laws:
        for j in range(6):
            chk.eq("the control law is evaluated at the state of the step", e.args[2][j], x0[j], e.where(), b_and(e.pc, s.pc))
    ang = [r.angles(s.fork(), e) for e in laws]
    val = lambda i: r.value(s, laws, lambda e: ang[laws.index(e)][i])
    chk.eq("with throttle one the recorded in-plane angle is that of the control law", al, val(0), w, b_and(s.pc, on))
    chk.eq("with throttle one the recorded out-of-plane angle is that of the control law", be, val(1), w, b_and(s.pc, on))
    chk.eq("the recorded Q is that of the state of the step", r.recorded(s, "Qs"), val(4), w, s.pc)
    chk.eq("the recorded rate of Q is that of the state of the step", r.recorded(s, "dQdts"), val(5), w, s.pc)
