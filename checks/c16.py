"""C16 battery limits and accounting"""
from .run import *
from .c15 import throttle, is_on

CONFIGS = [dict(eta="zero", duty=False), dict(elements="keplerian", integrator="rkf45", eta="zero"), dict(sundman=True, eta="zero", integrator="rkf45"), dict(elements="keplerian", sundman=True, eta="zero", duty=False), dict(eta="float")]
MORE = [dict(elements=e, integrator=i, eta=t, duty=d) for e in P for i in ("rk4", "rkf45") for t in ("call", "zero") for d in (True, False)]


def run(chk):
    chk.rule("on every way a step ends: the recorded level lies within the capacity limits and equals the previous level minus discharge rate times step (engine enabled) or plus charge rate times step (disabled), clipped; a discharging step never overruns the lower limit; at the lower limit the engine is off; engine availability and step length are those of the reference automaton advanced with the loop (duty cycle, lower limit, full recharge)")
    chk.assumptions += ["lower capacity limit <= upper limit, positive discharge rate, non-negative charge rate", "real arithmetic; the code's numerical margin of 1e-12 at the lower limit is part of the specification"]
    for kw in CONFIGS + (MORE if chk.tier == "thorough" else []):
        with_companion(chk, kw, one)
    chk.floor("step ends", 12)


def one(chk, r):
    it, w = r.it, r.where
    cmp = it.compare
    lo, hi, rc, rd = r.lo, r.hi, S("rc", pos=True), S("rd", pos=True)
    sane = cmp("LtE", lo, hi, r.L.header)
    # if full recharge is required, charging ends at the upper limit: inductive over the steps
    full = r.Pr.get("require_full_recharge", False)
    inv = lambda st, b: b_or(b_not(full), b_or(cmp("Lt", b, hi, st), b_not(charging(r, st))))
    h = inv(r.L.header, r.prev(r.L.header, "battery"))
    chk.holds("a run does not start in charging mode", inv(r.L.entry, first(r)), w, sane)
    for k, s in r.ends():
        chk.count("step ends")
        b0, b1, dt = r.prev(s, "battery"), r.recorded(s, "battery"), r.dt(s)
        on = is_on(throttle(chk, r, s))
        pc = b_and(b_and(s.pc, sane), h)
        en = r.g(s, "enabled")
        if k == "back":
            chk.holds("charging mode ends at the upper limit", inv(s, b1), w, pc)
        chk.holds("the level stays within the limits", b_and(cmp("LtE", lo, b1, s), cmp("LtE", b1, hi, s)), w, pc)
        drain = it.binop("Sub", b0, it.binop("Mult", rd, dt, s), s)
        down, up = clip(r, s, drain), clip(r, s, it.binop("Add", b0, it.binop("Mult", rc, dt, s), s))
        chk.eq("the level falls by discharge rate times step while the engine is enabled and rises by charge rate times step while disabled", b1, ite(en, down, up), w, pc)
        low = cmp("LtE", b0, lo, s)
        chk.holds("the engine is disabled with the battery at its lower limit", b_not(b_and(on, low)), w, pc)
        chk.holds("no thrust while disabled", b_or(b_not(on), en), w, pc)
        chk.holds("an engine-on step does not overrun the lower limit", b_or(b_not(en), cmp("GtE", drain, lo, s)), w, pc)
        if not r.sundman:
            chk.eq("the step is shortened exactly when it would overrun the lower limit", dt, r.g(s, "step"), w, pc)
        if r.cfg["eta"] == "zero":
            chk.holds("with the battery available the engine is on", b_or(b_or(on, b_not(en)), r.nan(s)), w, pc)


def charging(r, st):
    f = lift(lambda x: x is True or x == 1, r.g(st, "charge_flag"))
    return b_not(f) if r.flips[1] else f


def first(r):
    return r.content(r.L.entry, "battery")[0][0].items[0]


def clip(r, s, x):
    return r.it.models.np_call(r.it, "clip", [x, r.lo, r.hi], {}, s, None) if hasattr(r.it.models, "np_call") else ite(r.it.compare("Lt", x, r.lo, s), r.lo, ite(r.it.compare("Gt", x, r.hi, s), r.hi, x))
