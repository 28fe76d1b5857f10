"""C08 parameters reach their roles"""
from .run import *
from .c15 import configs

ROLES = ["mu", "acceleration", "state", "target", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp", "woe"]
CONFIGS = [dict(batt=False), dict(elements="keplerian", integrator="rkf45", eta="call", duty=False, target=6), dict(sundman=True, duty=False, batt=False, target=6), dict(elements="keplerian", eta="mixed", batt=False)]
MORE = [dict(elements=e, integrator=i, sundman=s, target=t) for e in P for i in ("rk4", "rkf45") for s in (False, True) for t in (5, 6)]
DEFAULT = dict(mu="1", k_petro="1", m_petro="3", n_petro="4", r_petro="2", b_petro="1/100", wp="1")


def run(chk):
    chk.rule("every evaluation of the control law and of the rate of Q on any path through a step receives the user's gravitational parameter, thrust acceleration, state, target, periapsis limit, scaling factors, penalty and weights, each in its own position; convergence test and clean-up receive the user's tolerances, weights and bounds; documented defaults are used exactly when nothing is given")
    chk.assumptions += ["the positions are those of the generated evaluators (decided by C06 and C07)"]
    for r in configs(chk, CONFIGS, MORE):
        steps(chk, r)
    defaults(chk)
    chk.floor("control law evaluations", 4)
    chk.floor("rate evaluations", 6)
    chk.floor("defaults", 14)


def steps(chk, r):
    it = r.it
    for k, s in r.ends()[-1:]:
        x0 = r.prev(s, "states")
        if r.elements == "keplerian":
            x0 = r.clean(s, x0)
        given = {"mu": S("mu", pos=True), "acceleration": r.accel(s), "state": x0, "target": snap(it, r.pre, r.Pr["oeT"])[:5], "woe": snap(it, r.pre, r.Pr["woe"])}
        for n in PAR:
            given[n] = r.kw[n]
        for kind, label in (("law", "control law evaluations"), ("dqdt", "rate evaluations")):
            for e in r.events(s, kind):
                chk.count(label)
                pc = b_and(e.pc, s.pc)
                chk.must("the evaluators of the chosen element set are used", e.data[2] == r.elements, e.where(), str(e.data[2]))
                if not chk.must("the evaluators receive all parameters", len(e.args) == len(ROLES), e.where(), str(len(e.args))):
                    continue
                for role, a in zip(ROLES, e.args):
                    same(chk, f"{label}: {role} in its role", a, given[role], e.where(), pc, skip=5 if kind == "dqdt" and role == "state" else None)
        for e in r.events(s, "conv"):
            chk.count("convergence tests")
            pc = b_and(e.pc, s.pc)
            same(chk, "the convergence test receives the target", e.args[1], given["target"], e.where(), pc)
            same(chk, "the convergence test receives the weights", e.args[2], given["woe"], e.where(), pc)
        for e in r.events(s, "clean"):
            chk.count("clean-ups")
            pc = b_and(e.pc, s.pc)
            same(chk, "the clean-up receives the lower bounds", e.args[1], snap(it, r.pre, r.kw["oe_min"]), e.where(), pc)
            same(chk, "the clean-up receives the upper bounds", e.args[2], snap(it, r.pre, r.kw["oe_max"]), e.where(), pc)
        if r.elements == "keplerian":
            chk.must("Keplerian states are cleaned up in every step", bool(r.events(s, "clean")), r.where, r.name())
    same(chk, "the tolerance is the user's", snap(it, r.pre, r.attr(r.pre, "tol_oe")), snap(it, r.pre, r.kw["tol_oe"]), r.where, True)
    for n in ("tf_max", "t_step", "mass_min", "tmax", "mdot", "mass0"):
        chk.eq(f"{n} is the user's", r.attr(r.pre, n), r.Pr[n], r.where)
    for n in ("battery_capacity", "battery_charge_discharge_rate", "duty_cycle"):
        if n in r.Pr:
            a, b = it.try_iterate(r.attr(r.pre, n), r.pre), it.try_iterate(r.Pr[n], r.pre)
            for i in range(2):
                chk.eq(f"{n} is the user's", a[i], b[i], r.where)


def same(chk, rule, a, b, where, pc, skip=None):
    if isinstance(b, list):
        if chk.must(rule + " (length)", isinstance(a, list) and len(a) == len(b), where, f"{a}"[:200]):
            for j, (x, y) in enumerate(zip(a, b)):
                if j != skip:
                    chk.eq(rule, x, y, where, pc)
    else:
        chk.eq(rule, a, b, where, pc)


def defaults(chk):
    """documented defaults"""
    for kind in P:
        op = {}
        for k, (g, e, c) in P.items():
            op["pyqlaw._symbolic." + g] = law_model(k)
        w = World(op)
        it, st = w.it, w.state()
        for g, e, c in P.values():
            find(it, g)
        q = it.call(find(it, "QLaw"), [], dict(elements_type=kind, verbosity=0), st)
        where = w.where(find(it, "QLaw").lookup("__init__"))
        for n, v in DEFAULT.items():
            chk.count("defaults")
            chk.eq(f"documented default of {n}", it.getattr(q, n, st), T.const(T.Fr(v)), where)
        tol = snap(it, st, it.getattr(q, "tol_oe", st))
        rel = snap(it, st, it.getattr(q, "tol_oe_relaxed", st))
        for j in range(5):
            chk.eq("default tolerance", tol[j], T.const(T.Fr("1/1000")), where)
            chk.eq("default relaxed tolerance", rel[j], T.const(T.Fr("1/100")), where)
        arr = lambda n, p: it.new_array(st, (n,), [S(f"{p}{i}") for i in range(n)])
        it.call(it.getattr(q, "set_problem", st), [arr(6, "x0_"), arr(5, "xT_"), S("mass0", pos=True), S("tmax", pos=True), S("mdot", pos=True)], {}, st)
        where = w.where(find(it, "QLaw").lookup("set_problem"))
        ws = snap(it, st, it.getattr(q, "woe", st))
        if chk.must("five default weights", isinstance(ws, list) and len(ws) == 5, where, str(ws)):
            for j in range(5):
                chk.eq("all weights are one by default", ws[j], T.ONE, where)
        for n, p in (("oe0", "x0_"), ("oeT", "xT_")):
            v = snap(it, st, it.getattr(q, n, st))
            for j in range(5):
                chk.eq(f"{n} is the user's", v[j], S(f"{p}{j}"), where)
        # documented: no duty cycle, no battery limitation unless requested
        b = it.try_iterate(it.getattr(q, "battery_charge_discharge_rate", st), st)
        chk.eq("the battery is not used by default", b[0], T.ZERO, where)
        chk.eq("the battery is not used by default", b[1], T.ZERO, where)
        chk.eq("no off-phase by default", it.try_iterate(it.getattr(q, "duty_cycle", st), st)[1], T.ZERO, where)
