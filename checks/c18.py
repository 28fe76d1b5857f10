"""C18 coasting below the effectivity thresholds"""
from .run import *
from .c15 import throttle, is_on

CONFIGS = [dict(eta="float", batt=False), dict(elements="keplerian", integrator="rkf45", eta="call", batt=False), dict(eta="mixed", duty=False, batt=False, grid=4), dict(elements="keplerian", eta="mixed2", sundman=True, duty=False, batt=False, grid=2), dict(eta="zero", duty=False)]
MORE = [dict(elements=e, integrator=i, eta=t, grid=g, batt=b, duty=not b) for e in P for i in ("rk4", "rkf45") for t, g in (("float", 4), ("call", 3), ("mixed", 2)) for b in (True, False)]


def run(chk):
    chk.rule("on every way a step ends: throttle one exactly when enabled, angles defined and not (a threshold positive and an effectivity below its threshold); recorded thresholds are the given constants or the values of the callables at time, state, mass and battery of the step; recorded effectivities are |rate / extreme rate| and |(rate - other extreme) / (extreme - other extreme)| over equally spaced anomalies of one revolution from the current one, all other elements and the acceleration being those of the step")
    chk.assumptions += ["real arithmetic, non-degenerate revolution (extreme rates differ and are not zero)", "the law's rate is directed like the acceleration (decided by C07)", "grids of 2, 3 and 4 points"]
    for kw in CONFIGS + (MORE if chk.tier == "thorough" else []):
        with_companion(chk, kw, one)
    chk.floor("step ends", 12)
    chk.floor("effectivity evaluations", 6)
    chk.floor("threshold evaluations", 5)


def one(chk, r):
    it, w = r.it, r.where
    cmp = it.compare
    for k, s in r.ends():
        chk.count("step ends")
        on = is_on(throttle(chk, r, s))
        en, nan = r.g(s, "enabled"), r.nan(s)
        run_ = b_and(b_and(en, b_not(nan)), s.pc)
        etas, bounds = r.recorded(s, "etas"), r.recorded(s, "etas_bounds")
        if not chk.must("two effectivities and two thresholds are recorded", all(isinstance(x, list) and len(x) == 2 for x in (etas, bounds)), w, r.name()):
            continue
        x0 = r.prev(s, "states")
        if r.elements == "keplerian":
            x0 = r.clean(s, x0)
        want = []
        for i, (given, tag) in enumerate(((r.ea, "eta_a"), (r.er, "eta_r"))):
            if isinstance(given, OpaqueFn):
                want.append(ap(it, s, tag, r.prev(s, "times"), r.w.arr(s, x0), r.prev(s, "masses"), r.prev(s, "battery")))
            else:
                want.append(given)
            chk.eq("the threshold of the step is recorded", bounds[i], want[i], w, run_)
        for e in r.events(s, "threshold"):
            chk.count("threshold evaluations")
            pc = b_and(e.pc, s.pc)
            if not chk.must("thresholds receive time, state, mass and battery", len(e.args) == 4, e.where(), str(len(e.args))):
                continue
            chk.eq("thresholds are evaluated at the time of the step", e.args[0], r.prev(s, "times"), e.where(), pc)
            for j in range(6):
                chk.eq("thresholds are evaluated at the state of the step", e.args[1][j], x0[j], e.where(), pc)
            chk.eq("thresholds are evaluated at the mass of the step", e.args[2], r.prev(s, "masses"), e.where(), pc)
            chk.eq("thresholds are evaluated at the battery level of the step", e.args[3], r.prev(s, "battery"), e.where(), pc)
        pos = [cmp("Gt", x, T.ZERO, s) for x in want]
        active = b_and(b_or(*pos), run_)
        if active is False:
            chk.holds("without positive thresholds the engine never coasts while enabled", on, w, run_)
            chk.holds("no thrust while disabled or with undefined angles", b_or(b_not(on), b_and(en, b_not(nan))), w, s.pc)
            continue
        below = b_or(*[cmp("Lt", a, b, s) for a, b in zip(etas, want)])
        chk.holds("the engine coasts exactly below a positive threshold", lift(lambda a, b: a == b, on, b_not(below)), w, active)
        chk.holds("without positive thresholds the engine does not coast", on, w, b_and(run_, b_not(b_or(*pos))))
        chk.holds("no thrust while disabled or with undefined angles", b_or(b_not(on), b_and(en, b_not(nan))), w, s.pc)
    ev = [e for e in r.events(s, "dqdt") if b_and(e.pc, active) is not False] if r.cfg["eta"] != "zero" else []
    if r.cfg["eta"] == "zero":
        return
    s = r.ends()[-1][1]
    if not chk.must("the rate is evaluated over a revolution", bool(ev), w, r.name()):
        return
    chk.holds("the rate is evaluated over a revolution whenever a threshold is positive", r.cover(ev), w, active)
    phases, rates = [], []
    for e in ev:
        chk.count("effectivity evaluations")
        pc = b_and(e.pc, s.pc)
        for j in range(5):
            chk.eq("the slow elements are those of the step over the whole revolution", e.args[2][j], x0[j], e.where(), pc)
        chk.eq("the acceleration is that of the step over the whole revolution", e.args[1], r.accel(s), e.where(), pc)
        f = set()
        for x, _ in G.leaves(e.args[2][5]):
            for y, _ in G.leaves(x0[5]):
                f.add(None if num(x) is None or num(y) is None else num((num(x) - num(y)) / (T.PI * 2)).const())
        if len(f) != 1 or None in f:
            chk.must("the rate is evaluated at anomalies at fixed phases from the current one", False, e.where(), str(e.args[2][5])[:300])
            return
        phases.append(f.pop() % 1)
        rates.append(e.res)
    ps = sorted(set(phases))
    n = len(ps)
    grid = num(r.attr(s, "anomaly_grid_size")).const()
    chk.must("the anomalies are equally spaced over one revolution from the current one", n >= grid and ps == [T.Fr(i, n) for i in range(n)], ev[0].where(), f"phases {[str(x) for x in ps]} for a grid of {grid}")
    if len(ev) > 5:
        return
    laws = r.events(s, "law")
    q = r.value(s, laws, lambda e: r.angles(s.fork(), e)[5])
    spec = it.try_iterate(it.call(r.w.spec("effect", "effectivity"), [q, it.new_list(s, rates)], {}, s), s)
    for got, want, name in zip(etas, spec, ("absolute", "relative")):
        chk.eq(f"the recorded {name} effectivity compares the current rate with the extremes of the revolution", got, want, w, active)
