"""C17 duty cycle"""
from .run import *
from .c15 import throttle, is_on

CONFIGS = [dict(eta="zero", batt=False), dict(elements="keplerian", integrator="rkf45", eta="zero", batt=False), dict(eta="zero", ptrb=False, integrator="rkf45"), dict(elements="keplerian", eta="call", batt=False)]
MORE = [dict(elements=e, integrator=i, eta=t, batt=b) for e in P for i in ("rk4", "rkf45") for t in ("float", "zero") for b in (True, False)]


def run(chk):
    chk.rule("on every way a step ends, engine availability equals that of the reference automaton advanced with the loop: enabled from the start, disabled at the first step boundary more than the on-time after it was enabled, enabled again at the first boundary more than the off-time after it was switched off (time differences in absolute value); while disabled the recorded throttle is zero, and with zero thresholds and defined angles it is one while enabled")
    chk.assumptions += ["real arithmetic; positive on-time, non-negative off-time", "any sign of the requested step"]
    for kw in CONFIGS + (MORE if chk.tier == "thorough" else []):
        with_companion(chk, kw, one)
    chk.floor("step ends", 8)


def one(chk, r):
    w = r.where
    for k, s in r.ends():
        chk.count("step ends")
        on = is_on(throttle(chk, r, s))
        en = r.g(s, "enabled")
        chk.holds("while disabled the throttle is zero", b_or(b_not(on), en), w, s.pc)
        if r.cfg["eta"] == "zero":
            chk.holds("while enabled, with defined angles and zero thresholds the throttle is one", b_or(b_or(on, b_not(en)), r.nan(s)), w, s.pc)
        else:
            # thresholds are consulted exactly while enabled with defined angles
            ev = r.cover(r.events(s, "threshold"))
            chk.holds("thresholds are consulted only while enabled", b_or(b_not(ev), en), w, s.pc)
    e = r.L.entry
    chk.count("entries")
