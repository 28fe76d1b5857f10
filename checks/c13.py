"""C13 exit code and convergence flag"""
from .run import *

CONFIGS = [dict(eta="zero"), dict(elements="keplerian", integrator="rkf45", eta="call"), dict(elements="keplerian", sundman=True, eta="zero", duty=False, batt=False), dict(integrator="rkf45", ptrb=False, duty=False)]
MORE = [dict(elements=e, integrator=i, eta=t) for e in P for i in ("rk4", "rkf45") for t in ("float", "mixed")]


def run(chk):
    chk.rule("on every way a run can end, the final exit code and convergence flag are implied by what was recorded: code 1 exactly when the convergence test with the set tolerance holds for the last recorded state, code 2 only when the number of states meeting the relaxed tolerance reached the requested number, -1 only with the mass at its limit, -3 only with more undefined angles than accepted, -2 only with the time used up; a run is continued only when none of these holds; results of earlier runs (arbitrary) have no influence")
    chk.assumptions += ["the convergence test is an arbitrary predicate of its arguments", "exit_at_relaxed, nan_angles_threshold arbitrary", "the initial state itself is not tested before the first step"]
    for kw in CONFIGS + (MORE if chk.tier == "thorough" else []):
        with_companion(chk, kw, one)
    chk.floor("ends of a run", 20)
    chk.floor("convergence tests", 8)


def one(chk, r):
    it, w, fin = r.it, r.where, r.st
    code, flag = r.attr(fin, "exitcode"), r.attr(fin, "converge")
    is_ = lambda v, c: lift(lambda x: num(x) is not None and T.is_zero(num(x) - c), v)
    true = lambda v: lift(lambda x: x is True or (isinstance(x, Poly) and T.is_zero(x - 1)), v)
    allowed = lift(lambda x: num(x) is not None and num(x).const() in (1, 2, -1, -2, -3), code)
    chk.holds("every run ends with a documented exit code", allowed, w, fin.pc)
    chk.holds("the convergence flag is set exactly for codes 1 and 2", lift(lambda a, b: a == b, true(flag), b_or(is_(code, 1), is_(code, 2))), w, fin.pc)
    if r.L.entry_false is not None:
        chk.holds("without any step the time is used up", is_(code, -2), w, b_and(fin.pc, r.L.entry_false.pc))
    for k, s in r.ends(steps=False):
        chk.count("ends of a run")
        pc = b_and(s.pc, fin.pc) if k != "back" else s.pc
        if pc is False:
            chk.must("every way out of the loop ends the run", False, w, k)
            continue
        n = r.appended(s, "times")[0]
        many, often = r.count_conditions(s) if r.ghost is not None else (None, None)
        if n == 0:
            over = it.compare("GtE", absolute(it, r.prev(s, "times")), absolute(it, r.user("tf_max", s)), s)
            if many is not None:
                chk.holds_any("a run without record in the last iteration was given up for undefined angles or for time", [b_or(b_and(is_(code, -3), m), b_and(is_(code, -2), over)) for m in many], w, pc)
            else:
                chk.holds("a run without record in the last iteration was given up for undefined angles or for time", b_or(is_(code, -3), b_and(is_(code, -2), over)), w, pc)
            continue
        new = r.recorded(s, "states")
        evs = r.events(s, "conv")
        chk.count("convergence tests", len(evs))
        for e in evs:
            epc = b_and(e.pc, s.pc)
            for j in range(6):
                chk.eq("the recorded state is tested", e.args[0][j], new[j], e.where(), epc)
            for j in range(5):
                chk.eq("the state is tested against the target", e.args[1][j], snap(it, s, r.attr(s, "oeT"))[j], e.where(), epc)
                chk.eq("the state is tested with the weights", e.args[2][j], snap(it, s, r.attr(s, "woe"))[j], e.where(), epc)
            tols = [[vkey(num(x)) for x in snap(it, s, r.attr(s, t))] for t in ("tol_oe", "tol_oe_relaxed")]
            chk.must("the state is tested with the set or the relaxed tolerance", [vkey(num(x)) for x in e.args[3]] in tols, e.where(), "")
            chk.must("the test is that of the element set", e.data[2] == r.elements, e.where(), str(e.data[2]))
        tight, relaxed = r.conv(s, "tight"), r.conv(s, "relaxed")
        chk.holds("every recorded state is tested with the set tolerance", r.evaluated(s, "tight"), w, s.pc)
        chk.holds("every state not within tolerance is tested with the relaxed tolerance", b_or(r.evaluated(s, "relaxed"), tight), w, s.pc)
        dry = it.compare("LtE", r.recorded(s, "masses"), r.user("mass_min", s), s)
        late = it.compare("GtE", absolute(it, r.recorded(s, "times")), absolute(it, r.user("tf_max", s)), s)
        enough = None
        if r.ghost is not None:
            enough = [b_and(relaxed, o) for o in often]
        over = it.compare("GtE", absolute(it, r.prev(s, "times")), absolute(it, r.user("tf_max", s)), s)
        chk.holds("no step is taken after the allotted time", b_not(over), w, s.pc)
        if k == "back":
            chk.holds("a run does not continue after reaching tolerance", b_not(tight), w, pc)
            chk.holds("a run does not continue with the mass at its limit", b_not(dry), w, pc)
            if r.ghost is not None:
                chk.holds_any("a run does not continue after meeting the relaxed tolerance often enough", [b_not(e) for e in enough], w, pc)
                chk.holds_any("a run does not continue with more undefined angles than accepted", [b_not(b_and(b_and(m, r.g(s, 'enabled')), r.nan(s))) for m in many], w, pc)
            continue
        chk.holds("code 1 exactly when the last recorded state meets the tolerance", lift(lambda a, b: a == b, is_(code, 1), tight), w, pc)
        chk.holds("code -1 only with the mass at its limit", b_or(b_not(is_(code, -1)), dry), w, pc)
        chk.holds("code -2 only when the time is used up", b_or(b_not(is_(code, -2)), late), w, pc)
        chk.holds("code 2 only when the last recorded state meets the relaxed tolerance", b_or(b_not(is_(code, 2)), relaxed), w, pc)
        if r.ghost is not None:
            chk.holds_any("code 2 exactly when the relaxed tolerance was met the requested number of times", [b_or(tight, lift(lambda a, b: a == b, is_(code, 2), e)) for e in enough], w, pc)
            chk.holds_any("code -3 only with more undefined angles than accepted", [b_or(b_not(is_(code, -3)), m) for m in many], w, pc)
        else:
            chk.must("code -3 is not given for a recorded step", b_and(pc, is_(code, -3)) is False, w, "")
    tolerance(chk, r)


def tolerance(chk, r):
    """the relaxed tolerance is the factor times the tolerance"""
    st = r.pre
    for j in range(5):
        t = snap(r.it, st, r.attr(st, "tol_oe"))[j]
        chk.eq("the relaxed tolerance is the relaxation factor times the tolerance", snap(r.it, st, r.attr(st, "tol_oe_relaxed"))[j], r.it.binop("Mult", S("relax", pos=True), t, st), r.w.where(find(r.it, "QLaw").lookup("__init__")))


def absolute(it, x):
    return lift(lambda v: T.fabs(num(v)), x)
