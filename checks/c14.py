"""C14 aligned histories forming one trajectory"""
from .run import *
from .c15 import configs, CONFIGS, MORE

ONE = ["times", "states", "masses", "battery"]


def run(chk):
    chk.rule("on every way a step ends, either every history grows by exactly one entry or none does; the new state is the result of the one integrator call of the step, whose time, state and step arguments are the last recorded time and state and the recorded time difference, and whose parameters are the current gravitational parameter, sensitivities and perturbation")
    chk.assumptions += ["real arithmetic", "control law, integrator, convergence test, perturbation and clean-up are arbitrary functions of their arguments"]
    for r in configs(chk, CONFIGS + [dict(ptrb=False)], MORE):
        start(chk, r)
        for k, s in r.ends(steps=False):
            chk.count("step ends")
            ns = {n: sorted({len(l.items) for l, c in r.content(s, n)}) for n in LISTS}
            if not chk.must("every history grows by the same number of entries in a step", len({tuple(v) for v in ns.values()}) == 1 and ns["times"] in ([0], [1]), r.where, f"{r.name()}: appended per history {ns}"):
                continue
            if ns["times"] == [1]:
                step(chk, r, s)
        final(chk, r)
    chk.floor("step ends", 20)
    chk.floor("integrator calls", 5)


def start(chk, r):
    e = r.L.entry
    for n in LISTS:
        for l, c in r.content(e, n):
            chk.must("histories start with the initial condition only", l.base is None and len(l.items) == (1 if n in ONE else 0), r.where, f"{n} starts with {len(l.items)} entries")
    first = lambda n: r.content(e, n)[0][0].items[0] if r.content(e, n)[0][0].items else None
    want = dict(times=T.ZERO, masses=r.Pr["mass0"], battery=r.Pr.get("battery_initial", T.ONE))
    for n, w in want.items():
        if first(n) is not None:
            chk.eq(f"{n} starts with the initial value", num(first(n)), w, r.where)
    if first("states") is not None:
        for j, (a, b) in enumerate(zip(snap(r.it, e, first("states")), snap(r.it, r.pre, r.Pr["oe0"]))):
            chk.eq(f"states start with the initial elements ({j})", a, b, r.where)


def step(chk, r, s):
    w, it = r.where, r.it
    locs = {x.loc for n in LISTS for x, _ in G.leaves(r.attr(s, n)) if isinstance(x, Ref)}
    gone = [e for e in r.events(s, "dropped") if e.data[3] in locs]
    chk.must("no entry is removed from a history or put before recorded ones", not gone, gone[0].where() if gone else w, str([e.data[:2] for e in gone])[:200])
    evs = r.events(s, "integ")
    chk.count("integrator calls", len(evs))
    if not chk.must("a recorded step contains an integrator call", bool(evs), w, r.name()):
        return
    chk.holds("every recorded step is integrated", r.cover(evs), w, s.pc)
    for i, a in enumerate(evs):
        for b in evs[i + 1:]:
            chk.holds("a step is integrated once", b_not(b_and(a.pc, b.pc)), w, s.pc)
    x0 = r.prev(s, "states")
    if r.elements == "keplerian":
        x0 = r.clean(s, x0)
    dt = r.dt(s)
    laws, pts = r.events(s, "law"), r.events(s, "ptrb")
    new = r.recorded(s, "states")
    if not chk.must("a recorded state has six elements", isinstance(new, list) and len(new) == 6, w, r.name()):
        return
    eom = find(it, P[r.elements][1])
    for e in evs:
        pc = b_and(e.pc, s.pc)
        x, f = e.res
        a = e.args
        chk.must("the integrator of the problem is used", e.data[2] == r.integrator, e.where(), f"{e.data[2]} instead of {r.integrator}")
        chk.must("the dynamics are those of the element set", getattr(f, "qual", None) == eom.qual, e.where(), f"{f}")
        chk.eq("integration starts at the last recorded time", a[0], r.prev(s, "times"), e.where(), pc)
        chk.eq("the step is the recorded time difference", a[1], dt, e.where(), pc)
        for j in range(6):
            chk.eq("integration starts from the last recorded state", a[2][j], x0[j], e.where(), pc)
            chk.eq("the recorded state is the integrator's result", new[j], x[j], e.where(), pc)
        p = a[3]
        if not chk.must("dynamics receive gravitational parameter, thrust, sensitivities and perturbation", len(p) == 6, e.where(), str(len(p))):
            continue
        chk.eq("dynamics use the problem's gravitational parameter", p[0], r.user("mu", s), e.where(), pc)
        if chk.must("sensitivities come from the control law of the step", bool(laws), e.where(), ""):
            for i in range(3):
                for j in range(5):
                    chk.eq("sensitivities are those of the current state", p[2 + i][j], r.value(s, laws, lambda q: q.res[1][i][j]), e.where(), pc)
        for i in range(3):
            want = r.value(s, pts, lambda q: q.res[i]) if r.cfg["perturbations"] else T.ZERO
            if chk.must("the perturbation model is evaluated in every step", want is not None, e.where(), ""):
                chk.eq("the perturbation of the step is applied", p[5][i], want, e.where(), pc)
        if r.integrator == "rkf45" and len(a) > 4:
            chk.eq("the integrator tolerance is the configured one", a[4], r.attr(s, "ode_tol"), e.where(), pc)
    for e in pts:
        pc = b_and(e.pc, s.pc)
        chk.eq("perturbations are evaluated at the time of the step", e.args[0], r.prev(s, "times"), e.where(), pc)
        for j in range(6):
            chk.eq("perturbations are evaluated at the state of the step", e.args[1][j], x0[j], e.where(), pc)
        chk.must("perturbations are told the element set", e.args[2] == r.elements, e.where(), str(e.args[2]))
    if not r.sundman:
        for lab, h in (("forward", G.sign_of(S("h"))), ("backward", G.sign_of(-S("h")))):
            pos = lift(lambda v: v == 1, h)
            d = dt if lab == "forward" else it.binop("Sub", T.ZERO, dt, s)
            chk.holds(f"time moves in the direction of the requested step ({lab})", it.compare("Gt", d, T.ZERO, s), w, b_and(s.pc, pos))


def final(chk, r):
    """nothing is added after the loop"""
    st = r.st
    for n in LISTS:
        ok = set()
        for k, s in r.ends(steps=False) + ([("unentered", r.L.entry_false)] if r.L.entry_false is not None else []):
            if k != "back":
                ok |= {vkey_list(l) for l, c in r.content(s, n)}
        got = {vkey_list(l) for l, c in r.content(st, n)}
        chk.must("the histories of the last step are final", got <= ok or shapes(got) <= shapes(ok), r.where, f"{n} is changed after the loop")


def vkey_list(l):
    return (l.base.label if l.base else None, len(l.items))


def shapes(x):
    return {(a, n) for a, n in x}
