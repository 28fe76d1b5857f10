"""One generic step of QLaw.solve: set-up, opaque callees, recorded values, companions."""
from .common import *
from sa.pkg import ap, deep
from sa.terms import Poly

LISTS = ["times", "states", "masses", "battery", "controls", "etas", "etas_bounds", "Qs", "dQdts"]
P = {"keplerian": ("symbolic_qlaw_keplerian", "eom_kep_gauss", "check_convergence_keplerian"),
     "mee_with_a": ("symbolic_qlaw_mee_with_a", "eom_mee_with_a_gauss", "check_convergence_mee")}
PAR = ["rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp"]


def snap(it, st, v):
    """content of a value now: number, or list of numbers"""
    r = it.models.as_nested(it, v, st)
    if r is None or r[0] == ():
        return v
    return list(r[1])


class Ev:
    def __init__(self, e):
        self.pc, self.kind, self.data, self.mod, self.fn, self.line = e
        self.args, self.res = (tuple(self.data[:2]) + (None, None))[:2]

    def where(self):
        return f"{self.mod}.{self.fn} line {self.line}"


def rate(it, st, a):
    """rate of Q of the opaque law: non-negative magnitude directed like the acceleration"""
    p = ap(it, st, "law.dqdt", *a)
    at = T.atom_of(num(p))
    at.nonneg = True
    return it.binop("Mult", lift(lambda f: lift(T.const, G.sign_of(num(f))), a[1]), p, st)


def law_model(tag):
    def gen(it, st, args, kw):
        def lyap(it2, st2, a, k):
            a = list(a) + list(k.values())
            u = [ap(it2, st2, f"law.u{i}", *a) for i in range(3)]
            psi = [[ap(it2, st2, f"law.psi{i}{j}", *a) for j in range(5)] for i in range(3)]
            q = ap(it2, st2, "law.q", *a)
            d = [ap(it2, st2, f"law.dq{j}", *a) for j in range(5)]
            it2.event(st2, "law", [snap(it2, st2, x) for x in a], (u, psi, q, d), tag)
            L = lambda x: it2.new_list(st2, x)
            return L([L(u), L([L(p) for p in psi]), q, L(d)])

        def dqdt(it2, st2, a, k):
            a = list(a) + list(k.values())
            r = rate(it2, st2, a)
            it2.event(st2, "dqdt", [snap(it2, st2, x) for x in a], r, tag)
            return r

        return Tup([OpaqueFn("control law", lyap), OpaqueFn("psi", None), OpaqueFn("dqdoe", None), OpaqueFn("rate of Q", dqdt)])
    return gen


def conv_model(tag):
    def conv(it, st, args, kw):
        args = args + list(kw.values())
        r = G.boolvar(("conv", tag) + tuple(deep(it, st, a) for a in args))
        it.event(st, "conv", [snap(it, st, x) for x in args], r, tag)
        return r
    return conv


def integ_model(name):
    def integ(it, st, args, kw):
        f = find(it, name)
        pos = [p.arg for p in f.node.args.args]
        v = dict(zip(pos, args))
        v.update(kw)
        a = [v.get(n) for n in pos]
        key = [x for x in a[1:] if x is not None]
        x = [ap(it, st, f"{name}.x{i}", *key) for i in range(6)]
        arr = it.new_array(st, (6,), x)
        h = ap(it, st, f"{name}.h", *key)
        it.event(st, "integ", [snap(it, st, y) if y is not None else None for y in a[1:4]] + [params(it, st, a[4])] + list(a[5:]), (x, a[0]), name)
        return arr if name == "rk4" else Tup([arr, h])
    return integ


def params(it, st, p):
    """ODE parameters of the integrator call, by content"""
    items = it.try_iterate(p, st)
    if items is None:
        raise Undecided("the ODE parameters are not a sequence")
    return [snap(it, st, x) for x in items]


def safety_model(it, st, args, kw):
    a = list(args) + list(kw.values())
    x = it.models.as_nested(it, a[0], st)
    r = [ap(it, st, f"clean{i}", *a) for i in range(5)] + [x[1][5]]
    it.event(st, "clean", [snap(it, st, y) for y in a], r, "")
    return it.new_array(st, (6,), r)


def cb(name):
    def f(it, st, args, kw):
        a = list(args) + list(kw.values())
        r = ap(it, st, name, *a)
        it.event(st, "threshold", [snap(it, st, x) for x in a], r, name)
        return r
    return OpaqueFn(name, f)


MODEL = ("et_ref", "LU", "TU", "obs_id", "obs_mu", "frame_qlaw", "frame_PA", "third_bodies_names", "third_bodies_gms", "J2", "Re", "k_srp", "use_J2", "use_SRP")


def ptrb_model(it, st, args, kw):
    a = list(args[1:]) + list(kw.values())
    r = [ap(it, st, f"ptrb{i}", *[x for x in a if not isinstance(x, str)]) for i in range(3)]
    own = st.heap[args[0].loc].attrs if args and isinstance(args[0], Ref) else {}
    it.event(st, "ptrb", [snap(it, st, x) if not isinstance(x, str) else x for x in a], r, {n: own.get(n) for n in MODEL})
    return it.new_array(st, (3,), r)


class Run:
    """analysed solve() of one configuration.
    eta: 'float' | 'call' | 'zero' | 'mixed';  duty/batt: include the duty cycle / battery symbols or switch them off"""

    def __init__(self, elements="mee_with_a", integrator="rk4", sundman=False, ptrb=True, eta="float", duty=True, batt=True, bounds=False, grid=3, hook=True, flips=(False, False), stale=True, defaults=(), target=5, arrays=False, peel=0, verbosity=None, inline=(), extra=(), problem=(), log=False):
        T.reset_facts()
        self.flips = flips
        if verbosity is None:
            verbosity = S("verbosity", nonneg=True)
        self.cfg = dict(elements=elements, integrator=integrator, sundman=sundman, perturbations=ptrb, eta=eta, duty=duty, battery=batt)
        self.elements, self.integrator, self.sundman = elements, integrator, sundman
        op = {}
        for k, (g, e, c) in P.items():
            op["pyqlaw._symbolic." + g] = law_model(k)
            op["pyqlaw._convergence." + c] = conv_model(k)
        for n in ("rk4", "rkf45"):
            op["pyqlaw._integrate." + n] = integ_model(n)
        op["pyqlaw._convergence.elements_safety"] = safety_model
        op["spec.automaton.Perturbation.get_perturbations_RTN"] = ptrb_model
        for q in list(op):
            if q.rsplit(".", 1)[1] in inline:
                del op[q]
        self.w = w = World(op)
        self.it = it = w.it
        it.peel = peel
        for q in op:
            if q.startswith("pyqlaw."):
                find(it, q.rsplit(".", 1)[1])
        self.st = st = w.state()
        arr = lambda n, p: it.new_array(st, (n,), [S(f"{p}{i}") for i in range(n)])
        lst = lambda n, p, **k: it.new_array(st, (n,), [S(f"{p}{i}", **k) for i in range(n)]) if arrays else it.new_list(st, [S(f"{p}{i}", **k) for i in range(n)])
        kw = dict(mu=S("mu", pos=True), elements_type=elements, integrator=integrator, verbosity=verbosity, anomaly_grid_size=grid, use_sundman=sundman)
        for k in PAR:
            kw[k] = S(k, pos=True)
        kw["tol_oe"] = lst(5, "tol", pos=True)
        kw["relaxed_tol_factor"] = S("relax", pos=True)
        kw["exit_at_relaxed"] = S("nrelax", pos=True)
        kw["nan_angles_threshold"] = S("nnan", nonneg=True)
        kw["oe_min"], kw["oe_max"] = lst(6, "lo"), lst(6, "hi")
        if ptrb:
            kw["perturbations"] = it.call(w.spec("automaton", "Perturbation"), [], {}, st)
            for n in MODEL:
                it.setattr(kw["perturbations"], n, S("model's " + n), st)
        for d in defaults:
            kw.pop(d, None)
        kw.update(extra)
        self.kw = kw
        self.watch_inputs(kw)
        self.q = q = it.call(find(it, "QLaw"), [], kw, st)
        self.Pr = pr = dict(oe0=arr(6, "x0_"), oeT=arr(target, "xT_"), mass0=S("mass0", pos=True), tmax=S("tmax", pos=True), mdot=S("mdot", pos=True),
                            tf_max=S("tf"), t_step=S("h"), mass_min=S("mmin", pos=True), woe=lst(5, "w"))
        self.lo, self.hi, self.b0 = S("blo"), S("bhi"), S("b0")
        if duty:
            pr["duty_cycle"] = Tup([S("on", pos=True), S("off", nonneg=True)])
        else:
            pr["duty_cycle"] = Tup([T.INF, T.ZERO])
        if batt:
            pr["battery_initial"] = self.b0
            pr["battery_capacity"] = Tup([self.lo, self.hi])
            pr["battery_charge_discharge_rate"] = Tup([S("rc", pos=True), S("rd", pos=True)])
            pr["require_full_recharge"] = G.boolvar("full recharge required")
        pr.update(problem)
        for d in defaults:
            pr.pop(d, None)
        self.watch_inputs(pr)
        it.div_log = [] if log else None
        it.call(it.getattr(q, "set_problem", st), [], pr, st)
        if stale is True:
            self.make_stale(st)
        elif stale:
            for n, v in stale.items():
                it.setattr(q, n, v, st)
        it.raises.clear()
        it.unbound.clear()
        ea = {"float": S("ea"), "call": cb("eta_a"), "zero": T.ZERO, "mixed": S("ea"), "mixed2": cb("eta_a")}[eta]
        er = {"float": S("er"), "call": cb("eta_r"), "zero": T.ZERO, "mixed": cb("eta_r"), "mixed2": S("er")}[eta]
        self.ea, self.er = ea, er
        self.pre = st.fork()
        self.ghost = None
        if hook:
            self.ghost = it.call(w.spec("automaton", "Automaton"), list(flips), {}, st)
            it.setattr(self.ghost, "nan_left", self.user("nan_angles_threshold", st), st)
            it.setattr(self.ghost, "relaxed_left", self.user("exit_at_relaxed", st), st)
            self.given = it.call(w.spec("automaton", "Settings"), [], {}, st)
            for n in ("battery_capacity", "battery_charge_discharge_rate", "duty_cycle", "require_full_recharge"):
                it.setattr(self.given, n, self.user(n, st), st)
        it.loop_hook = self
        self.n0 = len(st.events)
        self.ret = it.call(it.getattr(q, "solve", st), [], dict(eta_a=ea, eta_r=er), st)
        it.loop_hook = None
        if peel:
            self.where = f"pyqlaw/_qlaw.py: QLaw.solve"
            return
        if not it.loops:
            raise Undecided("no propagation loop found in solve()")
        self.L = it.loops[-1]
        self.where = f"pyqlaw/_qlaw.py: QLaw.{self.L.func} (line {self.L.node.lineno})"

    def watch_inputs(self, d):
        from sa.loops import reachable
        for n, v in d.items():
            if isinstance(v, (Ref, ArrRef, Tup)):
                for loc in reachable(v, self.st):
                    self.it.watch.setdefault(loc, f"input {n}")

    def make_stale(self, st):
        """results of an arbitrary earlier run"""
        it, q = self.it, self.q
        old = st.heap[q.loc].attrs
        for n in LISTS:
            it.setattr(q, n, Opq("history of an earlier run", (n,)), st)
        it.setattr(q, "converge", G.boolvar("earlier converge"), st)
        it.setattr(q, "exitcode", S("earlier exitcode"), st)

    # ------------------------------------------------------------- companion
    def begin(self, st):
        if self.sundman:
            x = self.prev(st, "states")
            if self.elements == "keplerian":
                x = self.clean(st, x)
                T.assume_pos(x[1])
                T.assume_pos(1 - x[1])
            else:
                T.assume_pos(1 - x[1]**2 - x[2]**2)
                T.assume_pos(1 - T.fsqrt(x[1]**2 + x[2]**2))
            T.assume_pos(x[0])
            self.x = x
        if self.ghost is not None:
            # the anomaly-based step is known only later; availability does not depend on it
            self.it.call(self.it.getattr(self.ghost, "begin", st), [self.q, self.given, T.ZERO if self.sundman else self.user("t_step", st)], {}, st)

    def end(self, st):
        if self.ghost is not None:
            it, g = self.it, self.ghost
            rel = self.conv(st, "relaxed")
            nan = b_and(self.nan(st), self.g(st, "enabled"))
            for name, c, d in (("n_relaxed", rel, 1), ("n_nan", nan, 1), ("relaxed_left", rel, -1), ("nan_left", nan, -1)):
                n = self.g(st, name)
                it.setattr(g, name, ite(c, it.binop("Add", n, d, st), n), st)
            it.call(it.getattr(g, "end", st), [self.q, self.given], {}, st)

    def count_conditions(self, st):
        """(too many undefined angles, relaxed tolerance met often enough) by counting up and by counting down"""
        c = self.it.compare
        return ([c("Gt", self.g(st, "n_nan"), self.attr(st, "nan_angles_threshold"), st), c("Lt", self.g(st, "nan_left"), 0, st)],
                [c("GtE", self.g(st, "n_relaxed"), self.attr(st, "exit_at_relaxed"), st), c("LtE", self.g(st, "relaxed_left"), 0, st)])

    def g(self, st, name):
        """value of a companion variable"""
        return self.it.getattr(self.ghost, name, st)

    def conv(self, st, which):
        """outcome of the convergence test with the given tolerance in this step (false where not evaluated)"""
        want = snap(self.it, st, self.attr(st, "tol_oe" if which == "tight" else "tol_oe_relaxed"))
        r = False
        for e in self.events(st, "conv"):
            if [vkey(x) for x in e.args[3]] == [vkey(x) for x in want]:
                r = b_or(r, b_and(e.pc, e.res))
        return r

    def evaluated(self, st, which):
        want = snap(self.it, st, self.attr(st, "tol_oe" if which == "tight" else "tol_oe_relaxed"))
        r = False
        for e in self.events(st, "conv"):
            if [vkey(x) for x in e.args[3]] == [vkey(x) for x in want]:
                r = b_or(r, e.pc)
        return r

    def angles(self, st, e):
        """thrust angles, direction and rate that the library derives from one evaluation of the law"""
        it = self.it
        L = lambda x: it.new_list(st, x)
        u, psi, q, d = e.res
        stub = OpaqueFn("law", lambda i2, s2, a, k: i2.new_list(s2, [i2.new_list(s2, u), i2.new_list(s2, [i2.new_list(s2, p) for p in psi]), q, i2.new_list(s2, d)]))
        r = it.call(find(it, "lyapunov_control_angles"), [stub] + [x if not isinstance(x, list) else self.w.arr(st, x) for x in e.args], {}, st)
        r = it.try_iterate(r, st)
        if r is None or len(r) != 6:
            raise Undecided("lyapunov_control_angles does not return six values")
        return r

    def nan(self, st):
        """the angles of this step are undefined"""
        r = False
        for e in self.events(st, "law"):
            s2 = st.fork()
            a = self.angles(s2, e)
            for x in a[:2]:
                r = b_or(r, b_and(e.pc, lift(self.it.models.isnan_leaf, x)))
        return r

    def clean(self, st, x):
        a = [self.w.arr(st, x), self.attr(st, "oe_min"), self.attr(st, "oe_max")]
        return [ap(self.it, st, f"clean{i}", *a) for i in range(5)] + [x[5]]

    # --------------------------------------------------------------- access
    def attr(self, st, name):
        return self.it.getattr(self.q, name, st)

    def content(self, st, name):
        """[(list content, condition)] of a recorded list"""
        v = self.attr(st, name)
        out = []
        for ref, c in G.leaves(v):
            if not isinstance(ref, Ref):
                raise Undecided(f"{name} is not a list: {str(ref)[:100]}")
            for l, c2 in G.leaves(st.heap[ref.loc]):
                cc = b_and(b_and(c, c2), st.pc)
                if cc is not False:
                    if not isinstance(l, ListC):
                        raise Undecided(f"{name} is not a list: {str(l)[:100]}")
                    out.append((l, cc))
        return out

    def prev(self, st, name):
        """last recorded entry at the start of the step"""
        h = self.L.header if getattr(self, "L", None) is not None else st
        l = self.content(h, name)[0][0]
        v = l.items[-1] if l.items else l.base.last
        return snap(self.it, h, v)

    def appended(self, st, name):
        """value appended to the list in the step, or None (number of appended items, value)"""
        cs = self.content(st, name)
        ns = {len(l.items) for l, c in cs}
        if len(ns) != 1:
            raise Undecided(f"{name} grows by a varying amount")
        n = ns.pop()
        if n == 0:
            return 0, None
        v = None
        for l, c in cs:
            v = l.items[-1] if v is None else ite(c, l.items[-1], v)
        return n, v

    def recorded(self, st, name):
        n, v = self.appended(st, name)
        return snap(self.it, st, v) if n else None

    def ends(self, steps=True):
        """(label, state) of every way a step ends; steps: only those that recorded something"""
        out = []
        for i, (k, s) in enumerate(self.L.ends):
            for part in self.split(s):
                if steps and self.appended(part, "times")[0] == 0:
                    continue
                out.append((f"{k}", part))
        return out

    def split(self, s):
        """separate by the number of appended entries"""
        parts = {}
        for l, c in self.content(s, "times"):
            n = len(l.items)
            parts[n] = b_or(parts[n], c) if n in parts else c
        if len(parts) == 1:
            return [s]
        return [s.fork(c) for c in parts.values()]

    def events(self, st, kind, tag=None):
        out = []
        for e in st.events[self.nevents():]:
            e = Ev(e)
            if e.kind != kind or (tag is not None and e.data[2] != tag):
                continue
            if b_and(e.pc, st.pc) is False:
                continue
            out.append(e)
        return out

    def nevents(self):
        return self.L.nevents if getattr(self, "L", None) is not None else self.n0

    def value(self, st, evs, f):
        """value derived from the evaluation that happened on the path"""
        r = None
        for e in evs:
            x = f(e)
            r = x if r is None else ite(e.pc, x, r)
        return r

    def dt(self, st):
        return self.it.binop("Sub", self.recorded(st, "times"), self.prev(st, "times"), st)

    def user(self, name, st):
        """a setting as the user gave it; an omitted one as the problem holds it before the run"""
        if name in self.Pr:
            return self.Pr[name]
        return self.kw[name] if name in self.kw else self.attr(self.pre, name)

    def accel(self, st):
        """thrust acceleration of the step: maximal thrust over mass at its start, signed like the recorded step"""
        it = self.it
        sg = lift(self.sgn, self.dt(st))
        return it.binop("Div", it.binop("Mult", sg, self.user("tmax", st), st), self.prev(st, "masses"), st)

    def sgn(self, x):
        return lift(lambda s: T.const(s), G.sign_of(num(x)))

    def cover(self, evs):
        r = False
        for e in evs:
            r = b_or(r, e.pc)
        return r

    def name(self):
        c = self.cfg
        return f"{c['elements']}/{c['integrator']}" + ("/sundman" if c["sundman"] else "") + ("" if c["perturbations"] else "/unperturbed") + f"/eta {c['eta']}" + ("" if c["duty"] else "/no duty cycle") + ("" if c["battery"] else "/no battery")


FLIPS = [(False, False), (True, False), (False, True), (True, True)]


def with_companion(chk, kw, fn):
    """obligations with the reference automaton, whichever form of its flags the loop keeps"""
    first = None
    for f in FLIPS:
        sub = Check(chk.pid, chk.tier, chk.seed)
        try:
            r = Run(flips=f, **kw)
            sub.used(r.it)
            sub.count("configurations")
            fn(sub, r)
        except Undecided as e:
            if first is None:
                raise
            continue
        if first is None:
            first = sub
        if not sub.violations:
            first = sub
            break
        if r.ghost is None:
            break
    chk.merge(first)
