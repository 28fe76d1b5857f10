"""C23 invalid configurations are refused"""
from .run import *
from sa.interp import Dead

STEP = ("integ",)


class Entered(Exception):
    pass


class Gate:
    """stops the analysis where the propagation loop is reached"""

    def begin(self, st):
        raise Entered()

    def end(self, st):
        pass


class Site:
    def __init__(self):
        op = {}
        for k, (g, e, c) in P.items():
            op["pyqlaw._symbolic." + g] = law_model(k)
            op["pyqlaw._convergence." + c] = conv_model(k)
        for n in ("rk4", "rkf45"):
            op["pyqlaw._integrate." + n] = integ_model(n)
        self.w = World(op)
        self.it = self.w.it

    def attempt(self, fn, st):
        """(condition under which the call returns, condition under which it raises, states at the raises, propagation reached)"""
        it = self.it
        it.raises.clear()
        it.raise_states = []
        it.loop_hook = Gate()
        n, reached = len(st.events), False
        try:
            fn()
            ret = st.pc
        except Dead:
            ret = False
        except Entered:
            ret, reached = st.pc, True
        finally:
            it.loop_hook = None
            rs, it.raise_states = it.raise_states, None
        for e in st.events[n:]:
            if e[1] in STEP:
                reached = True
        bad = False
        for r in it.raises:
            bad = b_or(bad, r[0])
        return ret, bad, rs, reached


def run(chk):
    chk.rule("on every path of construction, assignment and set-up the call returns only under the validity condition of its arguments, and under that condition it does not raise; solve raises before the propagation loop when no problem is defined or a threshold is neither a number nor callable")
    chk.assumptions += ["assertions are enabled (python is not run with -O)", "numbers passed as parameters are real"]
    s = Site()
    construction(chk, s)
    assignment(chk, s)
    problem(chk, s)
    solving(chk, s)
    chk.used(s.it)
    chk.floor("calls with invalid arguments", 90)
    chk.floor("calls with valid arguments", 60)


def refused(chk, s, st, fn, invalid, what, where, keep=None):
    """fn raises on every path on which invalid holds"""
    chk.count("calls with invalid arguments")
    ret, bad, rs, reached = s.attempt(fn, st)
    chk.must(f"{what} is refused", G.b_and(ret, invalid) is False or not refute(b_not(b_and(ret, invalid))), where, f"a path accepts {what}")
    return rs


def accepted(chk, s, st, fn, valid, what, where):
    chk.count("calls with valid arguments")
    it = s.it
    ret, bad, rs, reached = s.attempt(fn, st)
    for r in it.raises:
        c = b_and(r[0], valid)
        if c is not False and refute(b_not(c)):
            chk.must("every valid configuration is accepted", False, f"{r[2].replace('.', '/')}.py: {r[3]} (line {r[4]})", f"{r[1]} for {what}: {str(r[5])[:120]}")
    chk.ok("every valid configuration is accepted", what)
    return ret, reached


def valid_kw(s, st, elements="mee_with_a", integrator="rk4", given=True):
    it = s.it
    lst = lambda n, p: it.new_list(st, [S(f"{p}{i}", pos=True) for i in range(n)])
    kw = dict(mu=S("mu", pos=True), elements_type=elements, integrator=integrator)
    if given:
        kw.update(tol_oe=lst(5, "tol"), oe_min=lst(6, "lo"), oe_max=lst(6, "hi"), relaxed_tol_factor=1 + S("rx", nonneg=True),
                  exit_at_relaxed=S("nrelax", pos=True), nan_angles_threshold=S("nnan", nonneg=True), verbosity=S("verbosity", nonneg=True),
                  anomaly_grid_size=S("grid", pos=True), print_frequency=S("freq", pos=True), use_sundman=G.boolvar("use_sundman"), perturbations=Opq("perturbation object", ()))
        kw.update({n: S(n, pos=True) for n in PAR})
    return kw


def seqs(s, st, n, p):
    """the same numbers as list, tuple and array"""
    it = s.it
    x = [S(f"{p}{i}", pos=True) for i in range(n)]
    return [("list", it.new_list(st, x)), ("tuple", Tup(x)), ("array", it.new_array(st, (n,), x))]


def construction(chk, s):
    it, w = s.it, s.w
    Q = find(it, "QLaw")
    wh = "pyqlaw/_qlaw.py: QLaw.__init__"
    new = lambda st, kw: (lambda: it.call(Q, [], kw, st))
    for e in P:
        for i in ("rk4", "rkf45"):
            for given in (False, True):
                T.reset_facts()
                st = w.state()
                accepted(chk, s, st, new(st, valid_kw(s, st, e, i, given)), True, f"{e}, {i}, {'all' if given else 'no further'} settings given", wh)
        for kind in range(3):
            T.reset_facts()
            st = w.state()
            kw = valid_kw(s, st, e)
            kw["tol_oe"] = seqs(s, st, 5, "tol")[kind][1]
            accepted(chk, s, st, new(st, kw), True, f"{e}, tolerances as {seqs(s, st, 5, 'tol')[kind][0]}", wh)

    def bad(what, invalid, **over):
        for e in P:
            for given in (False, True):
                T.reset_facts()
                st = w.state()
                kw = valid_kw(s, st, e, "rk4", given)
                kw.update({k: (v(st) if callable(v) and not isinstance(v, OpaqueFn) else v) for k, v in over.items()})
                refused(chk, s, st, new(st, kw), invalid, what, wh)
    x = S("mu of any sign")
    bad("a gravitational parameter that is not positive", lift(lambda k: k <= 0, G.sign_of(x)), mu=x)
    bad("a gravitational parameter of zero", True, mu=T.ZERO)
    f = S("factor")
    bad("a relaxation factor below one", lift(lambda k: k < 0, G.sign_of(f - 1)), relaxed_tol_factor=f)
    bad("a relaxation factor of zero", True, relaxed_tol_factor=T.ZERO)
    for name, known in (("elements_type", list(P)), ("integrator", ["rk4", "rkf45"])):
        for v in unknown(known):
            bad(f"{name} {v!r}" if isinstance(v, str) else f"{name} {v}", True, **{name: v})
        o = Opq("a string", (name,))
        eq = False
        for k in known:
            eq = b_or(eq, it.truth(it.compare("Eq", o, k, it.state0), it.state0))
        try:
            T.reset_facts()
            st = w.state()
            kw = valid_kw(s, st, **({"elements": o} if name == "elements_type" else {"integrator": o}))
            refused(chk, s, st, new(st, kw), b_not(eq), f"any {name} other than {' and '.join(known)}", wh)
        except Unsupported:
            chk.count("symbolic names not analysable")
    for n in list(range(0, 5)) + [6, 7, 10]:
        for k in range(3):
            bad(f"{n} tolerances", True, tol_oe=lambda st, n=n, k=k: seqs(s, st, n, "tol")[k][1])


def unknown(known):
    out = ["", "unknown", "mee", "kep", "euler", "rk", "rk45", "RK4", "cartesian", None, Tup([])]
    for k in known:
        out += [k + " ", k.upper(), k[:-1], k + "5", k[1:]]
    return [v for v in dict.fromkeys(x if isinstance(x, (str, type(None))) else ("tuple",) for x in out) if v not in known and v != ("tuple",)]


def assignment(chk, s):
    it, w = s.it, s.w
    x = S("mu of any sign")
    cases = [("mu", x, lift(lambda k: k <= 0, G.sign_of(x)), "a gravitational parameter that is not positive"), ("mu", T.ZERO, True, "a gravitational parameter of zero")]
    for name, known in (("elements_type", list(P)), ("integrator", ["rk4", "rkf45"])):
        for v in unknown(known):
            cases.append((name, v, True, f"{name} {v!r}"))
    for e in P:
        for name, v, inv, what in cases:
            T.reset_facts()
            st = w.state()
            q = it.call(find(it, "QLaw"), [], valid_kw(s, st, e), st)
            old = it.getattr(q, name, st)
            wh = f"pyqlaw/_qlaw.py: QLaw.{name} (assignment)"
            rs = refused(chk, s, st, lambda: it.setattr(q, name, v, st), inv, what + ", assigned later,", wh)
            for r in rs:
                chk.must("a refused assignment leaves the setting as it was", vkey(it.getattr(q, name, r)) == vkey(old), wh, f"{name} has changed although {what} was refused")
        for name, vs in (("mu", [S("mu2", pos=True)]), ("elements_type", list(P)), ("integrator", ["rk4", "rkf45"])):
            for v in vs:
                T.reset_facts()
                st = w.state()
                q = it.call(find(it, "QLaw"), [], valid_kw(s, st, e), st)
                wh = f"pyqlaw/_qlaw.py: QLaw.{name} (assignment)"
                accepted(chk, s, st, lambda: it.setattr(q, name, v, st), True, f"{name} assigned {v}", wh)
                chk.must("an accepted assignment takes effect", vkey(it.getattr(q, name, st)) == vkey(v), wh, f"{name} is {it.getattr(q, name, st)} after assigning {v}")


def problem_args(s, st):
    it = s.it
    arr = lambda n, p: it.new_array(st, (n,), [S(f"{p}{i}") for i in range(n)])
    return dict(oe0=arr(6, "x0_"), oeT=arr(5, "xT_"), mass0=S("mass0", pos=True), tmax=S("tmax", pos=True), mdot=S("mdot", pos=True))


def optional(s, st):
    it = s.it
    return dict(tf_max=S("tf"), t_step=S("h"), mass_min=T.const(T.Fr(1, 100)) + S("mm", nonneg=True), woe=it.new_list(st, [S(f"w{i}", nonneg=True) for i in range(5)]),
                duty_cycle=Tup([S("on", pos=True), S("off", nonneg=True)]), battery_initial=S("b0"), battery_capacity=Tup([S("blo"), S("bhi")]),
                battery_charge_discharge_rate=Tup([S("rc"), S("rd")]), require_full_recharge=G.boolvar("full recharge required"))


def value(it, q, name, st):
    """a setting of the problem, as its elements"""
    v = it.getattr(q, name, st)
    try:
        return Tup(list(it.iterate(v, st)))
    except Unsupported:
        return v


def problem(chk, s):
    it, w = s.it, s.w
    wh = "pyqlaw/_qlaw.py: QLaw.set_problem"

    def prep(e):
        T.reset_facts()
        st = w.state()
        q = it.call(find(it, "QLaw"), [], valid_kw(s, st, e), st)
        return st, q, problem_args(s, st)

    def setp(st, q, kw):
        return lambda: it.call(it.getattr(q, "set_problem", st), [], kw, st)
    for e in P:
        st, q, kw = prep(e)
        accepted(chk, s, st, setp(st, q, kw), True, "required arguments only", wh)
        st, q, kw = prep(e)
        kw.update(optional(s, st))
        accepted(chk, s, st, setp(st, q, kw), True, "all arguments", wh)
        for name in optional(s, st):
            st, q, kw = prep(e)
            kw[name] = optional(s, st)[name]
            accepted(chk, s, st, setp(st, q, kw), True, f"only {name} given", wh)
        for n, name in ((6, "oe0"), (5, "oeT"), (6, "oeT"), (5, "woe")):
            for k in range(3):
                st, q, kw = prep(e)
                lab, kw[name] = seqs(s, st, n, name)[k]
                accepted(chk, s, st, setp(st, q, kw), True, f"{name} as {lab} of {n}", wh)
        m = S("minimum mass")
        bad = [("mass_min", lambda st: m, lift(lambda k: k < 0, G.sign_of(m - T.const(T.Fr(1, 100)))), "a minimum mass below 0.01"), ("mass_min", lambda st: T.ZERO, True, "a minimum mass of zero")]
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 12]:
            for k in range(3):
                bad.append(("oe0", lambda st, n=n, k=k: seqs(s, st, n, "x0_")[k][1], True, f"{n} initial elements"))
        for n in [0, 1, 2, 3, 4, 6, 7, 10]:
            for k in range(3):
                bad.append(("woe", lambda st, n=n, k=k: seqs(s, st, n, "w")[k][1], True, f"{n} weights"))
        for name, mk, inv, what in bad:
            for full in (False, True):
                st, q, kw = prep(e)
                if full:
                    kw.update(optional(s, st))
                kw[name] = mk(st)
                rs = refused(chk, s, st, setp(st, q, kw), inv, what, wh)
                for r in rs:
                    s2 = r.fork()
                    try:
                        it.raises.clear()
                        it.loop_hook = Gate()
                        it.call(it.getattr(q, "solve", s2), [], {}, s2)
                        solved = True
                    except Dead:
                        solved = False
                    except Entered:
                        solved = True
                    finally:
                        it.loop_hook = None
                    chk.must("a refused problem definition does not become solvable", not solved, wh, f"solve starts after {what} was refused")
                st, q, kw = prep(e)                             # a refused redefinition leaves the setting as it was
                kw.update(optional(s, st))
                it.call(it.getattr(q, "set_problem", st), [], kw, st)
                old = value(it, q, name, st)
                kw = dict(problem_args(s, st), **(optional(s, st) if full else {}))
                kw[name] = mk(st)
                for r in refused(chk, s, st, setp(st, q, kw), inv, what + " on redefinition", wh):
                    chk.must("a refused redefinition leaves the setting as it was", vkey(value(it, q, name, r)) == vkey(old), wh, f"{name} has changed although {what} was refused")


def solving(chk, s):
    it, w = s.it, s.w
    wh = "pyqlaw/_qlaw.py: QLaw.solve"
    func = OpaqueFn("threshold function", lambda i, st, a, k: ap(i, st, "eta", *a))
    good = [S("eta", nonneg=True), func, T.ZERO]

    def prep(e, i, define=True):
        T.reset_facts()
        st = w.state()
        q = it.call(find(it, "QLaw"), [], valid_kw(s, st, e, i), st)
        if define:
            it.call(it.getattr(q, "set_problem", st), [], dict(problem_args(s, st), **optional(s, st)), st)
        return st, q

    def sol(st, q, *a):
        return lambda: it.call(it.getattr(q, "solve", st), list(a), {}, st)

    def never(what, st, q, *a):
        chk.count("calls with invalid arguments")
        ret, bad, rs, reached = s.attempt(sol(st, q, *a), st)
        chk.must(f"{what} is refused before propagation", ret is False and not reached, wh, f"solve starts with {what}")
    for e in P:
        for i in ("rk4", "rkf45"):
            for args in [()] + [(a, b) for a in good for b in good] + [(a,) for a in good]:
                st, q = prep(e, i)
                ret, reached = accepted(chk, s, st, sol(st, q, *args), True, f"thresholds {[str(a) for a in args]}", wh)
                if not reached:
                    raise Undecided("no propagation loop found in solve()")
            st, q = prep(e, i, False)
            never("no problem defined", st, q)
            for mk in [lambda st: None, lambda st: "0.5", lambda st: it.new_list(st, [S("eta")]), lambda st: Tup([S("eta"), S("eta2")]), lambda st: it.new_array(st, (2,), [S("eta"), S("eta2")]), lambda st: 0, lambda st: 1]:
                for g in good:
                    for first in (True, False):
                        st, q = prep(e, i)
                        v = mk(st)
                        never(f"{'eta_a' if first else 'eta_r'} of an unsupported type ({type(v).__name__ if not isinstance(v, (str, type(None))) else v!r})", st, q, *((v, g) if first else (g, v)))
