"""C25 Cartesian and interpolated histories"""
from .finished import *

KINDS = [None, "linear", "quadratic", "cubic"]


def run(chk):
    chk.rule("value numbers of every column of the Cartesian history equal the conversion of the recorded (or interpolated) elements with the problem's element set and gravitational parameter; every interpolant is built from the recorded times and the recorded values of its own element")
    chk.assumptions += ["recorded lists of concrete lengths: 1 to 4 steps (thorough: up to 7); the functions treat all entries alike", "scipy's interpolants pass the given values at the given times", "the conversions themselves are decided by C02"]
    for n in (1, 2, 3, 4) if chk.tier == "quick" else range(1, 8):
        for e in P:
            plain(chk, e, n)
            for kind in KINDS:
                functions(chk, e, n, kind)
                for steps in (2, 3, 5):
                    interpolated(chk, e, n, kind, steps)
            default_steps(chk, e, n)
    chk.floor("histories analysed", 100)


def both(chk, e, n, fn, **kw):
    """with the conversions as named functions first; by way of the Keplerian elements when that does not settle it"""
    sub = Check(chk.pid, chk.tier, chk.seed)
    r = Finished(e, n=n, **kw)
    fn(sub, r)
    if sub.violations and e != "keplerian":
        sub2 = Check(chk.pid, chk.tier, chk.seed)
        try:
            r = Finished(e, n=n, inline=("mee_with_a2sv",), **kw)
            fn(sub2, r)
            if not sub2.violations:
                sub = sub2
        except Undecided:
            pass
    sub.used(r.it)
    sub.count("histories analysed")
    chk.merge(sub)


def columns(chk, r, st, cart, cols, wh, lab):
    sh = r.it.models.as_nested(r.it, cart, st)
    if not chk.must("the history has six rows and one column per time", sh is not None and sh[0] == (6, len(cols)), wh, f"shape {None if sh is None else sh[0]}, expected (6, {len(cols)}) ({lab})"):
        return
    v = sh[1]
    for j, x in enumerate(cols):
        want = r.sv(st, x)
        for i in range(6):
            chk.eq(f"column {j}, component {i} is the converted state ({lab})", v[i * len(cols) + j], want[i], wh, st.pc)


def fine(chk, r, wh, lab):
    ok = chk.must("no valid request fails", not r.it.raises and not r.it.unbound, wh, f"{reportable(r.it, r)[:1]} ({lab})")
    return ok


def plain(chk, e, n):
    def f(sub, r):
        st = r.st
        wh = r.where("get_cartesian_history")
        for kw in ({}, dict(interpolate=False), dict(interpolate=False, steps=5, kind="linear")):
            s = st.fork()
            cart = r.call("get_cartesian_history", s, **kw)
            fine(sub, r, wh, str(kw))
            columns(sub, r, s, cart, r.states, wh, f"{e}, {n} steps")
        s = st.fork()
        pair = r.call("get_cartesian_history", s, get_t_evals=True)
        it = r.it.try_iterate(pair, s)
        if sub.must("history and evaluation times are returned on request", it is not None and len(it) == 2, wh, str(pair)[:100]):
            columns(sub, r, s, it[0], r.states, wh, f"{e}, {n} steps, with times")
    both(chk, e, n, f)


def grid(r, steps):
    t0, t1 = r.times[0], r.times[-1]
    return [t0 + (t1 - t0) * T.const(T.Fr(i, steps - 1)) for i in range(steps)]


def at(r, st, kind, t):
    rows = [[x[j] for x in r.states] for j in range(6)]
    return [interp(r.it, st, r.times, y, kind, (), t) for y in rows]


def interpolated(chk, e, n, kind, steps):
    def f(sub, r):
        s = r.st.fork()
        wh = r.where("get_cartesian_history")
        lab = f"{e}, {n} steps, interpolated {kind or 'by default'} at {steps} times"
        kw = {} if kind is None else dict(kind=kind)
        pair = r.call("get_cartesian_history", s, interpolate=True, steps=steps, get_t_evals=True, **kw)
        fine(sub, r, wh, lab)
        it = r.it.try_iterate(pair, s)
        if not sub.must("history and evaluation times are returned on request", it is not None and len(it) == 2, wh, str(pair)[:100]):
            return
        ts = grid(r, steps)
        tv = r.it.models.as_nested(r.it, it[1], s)
        if sub.must("one evaluation time per column", tv is not None and tv[0] == (steps,), wh, lab):
            for i in range(steps):
                sub.eq(f"evaluation time {i} is evenly spaced over the run", tv[1][i], ts[i], wh, s.pc)
        cols = [at(r, s, kind or "quadratic", tv[1][i] if tv is not None and len(tv[1]) == steps else t) for i, t in enumerate(ts)]
        columns(sub, r, s, it[0], cols, wh, lab)
        s = r.st.fork()
        columns(sub, r, s, r.call("get_cartesian_history", s, True, steps, **kw), cols, wh, lab + ", positional")
    both(chk, e, n, f)


def default_steps(chk, e, n):
    """number of columns when none is requested: hundred per time unit"""
    for sgn in (1, -1):
        ts = [T.const(T.Fr(sgn * 2 * i, 100)) for i in range(n + 1)]

        def f(sub, r):
            s = r.st.fork()
            wh = r.where("get_cartesian_history")
            cart = r.call("get_cartesian_history", s, interpolate=True)
            fine(sub, r, wh, "no number of steps given")
            sh = r.it.models.as_nested(r.it, cart, s)
            if not sub.must("an interpolated history has six rows and columns over the whole run", sh is not None and sh[0][0] == 6 and sh[0][1] >= 2, wh, str(sh and sh[0])):
                return
            m = sh[0][1]
            columns(sub, r, s, cart, [at(r, s, "quadratic", t) for t in grid(r, m)], wh, f"{e}, {n} steps, default number of columns")
        both(chk, e, n, f, times=ts)


def functions(chk, e, n, kind):
    def f(sub, r):
        s = r.st.fork()
        wh = r.where("interpolate_states")
        kw = {} if kind is None else dict(kind=kind)
        fs = r.it.try_iterate(r.call("interpolate_states", s, **kw), s)
        fine(sub, r, wh, str(kw))
        if not sub.must("six interpolants are returned", fs is not None and len(fs) == 6, wh, str(fs)[:100]):
            return
        t = S("any time")
        want = at(r, s, kind or "quadratic", t)
        for j in range(6):
            v = r.it.call(fs[j], [t], {}, s)
            sub.eq(f"interpolant {j} passes the recorded values of element {j} at the recorded times", v, want[j], wh, s.pc)
    both(chk, e, n, f)
