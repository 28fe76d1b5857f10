"""C22 inputs and recorded history are never altered, reruns are independent"""
from .run import *
from sa.interp import EnvC, ListC
from sa.loops import reachable, ABSENT
from .law import SETS, Law

CONFIGS = [dict(arrays=True), dict(elements="keplerian", integrator="rkf45", eta="call", arrays=True), dict(sundman=True, eta="zero", duty=False, batt=False, target=6), dict(elements="keplerian", sundman=True, ptrb=False, eta="zero", duty=False, batt=False),
           dict(defaults=("woe", "duty_cycle", "battery_capacity", "battery_charge_discharge_rate", "tol_oe", "oe_min", "oe_max"), eta="zero")]
MORE = [dict(elements=e, integrator=i, eta=t, sundman=s, duty=False, batt=False) for e in P for i in ("rk4", "rkf45") for t in ("zero", "mixed") for s in (False, True)] + [dict(elements=e, integrator=i) for e in P for i in ("rk4", "rkf45")]
MARK = "earlier run"


def run(chk):
    chk.rule("no store, augmented assignment, deletion or mutating method on any path of construction, set-up, solve and the functions it calls reaches an object that may alias a user input or an entry of a history; values left by an earlier run (every attribute solve changes, replaced by unconstrained markers) reach neither a condition, nor a call, nor a carried value, nor a result of the next run")
    chk.assumptions += ["threshold callables and perturbation objects supplied by the user do not modify their arguments", "callees written in C (numpy) follow their documented in-place behaviour"]
    for kw in CONFIGS + (MORE if chk.tier == "thorough" else []):
        one(chk, kw)
    callees(chk)
    chk.floor("configurations", 4)
    chk.floor("functions called in a step", 12)
    chk.floor("attributes changed by a run", 10)


def one(chk, kw):
    r = Run.__new__(Run)
    try:
        r.__init__(hook=False, stale=False, **kw)
    except Exception as e:
        if getattr(r, "it", None) is None or not r.it.mutations:
            raise
        mutated(chk, r.it, "pyqlaw/_qlaw.py: QLaw.solve", str(kw))
        return
    it = r.it
    chk.used(it)
    chk.count("configurations")
    mutated(chk, it, r.where, r.name(), names(r))
    pre, post = r.pre.heap[r.q.loc].attrs, r.st.heap[r.q.loc].attrs
    changed = {n: post[n] for n in post if n not in pre or vkey(pre[n]) != vkey(post[n]) or kept_and_filled(r, post[n])}
    nested_effects(chk, r)
    chk.count("attributes changed by a run", len(changed))
    try:
        r2 = Run(hook=False, stale={n: marker(n, v, r.st) for n, v in changed.items()}, **kw)
    except Exception as e:
        # the same analysis succeeds when the attributes of an earlier run are absent
        chk.must("the next run does not use what an earlier run left", False, r.where, f"{type(e).__name__}: {str(e)[:300]} ({r.name()})")
        return
    chk.used(r2.it)
    independent(chk, r2)


def kept_and_filled(r, v):
    """a list that existed before the run and holds its entries now"""
    return any(isinstance(x, Ref) and x.loc in r.pre.heap and isinstance(r.pre.heap[x.loc], ListC) and r.st.heap[x.loc] is not r.pre.heap[x.loc] for x, _ in G.leaves(v))


def names(r):
    out = {}
    for n, v in r.L.back.heap[r.q.loc].attrs.items() if r.L.back is not None else []:
        for x, _ in G.leaves(v):
            if isinstance(x, Ref):
                out[f"list@{x.loc}"] = n
    return out


def mutated(chk, it, wh, label, hist=None):
    for lab, mod, fn, line, pc in it.mutations:
        for l in lab.split(" / "):
            where = f"{mod.replace('.', '/')}.py: {fn} (line {line})"
            if l.startswith("input "):
                chk.must("nothing the user passed in is modified", False, where, f"{l[6:] if l[6:].startswith('default of ') else 'the user' + chr(39) + 's ' + l[6:]} is modified in place ({label})")
            elif l.startswith("recorded element of "):
                n = l[20:]
                if hist is not None and n.startswith("list@"):
                    if n not in hist:
                        continue
                    n = hist[n]
                chk.must("recorded entries are never changed", False, where, f"an object recorded in {n} is modified in place ({label})")
    chk.ok("nothing the user passed in is modified", label)
    chk.ok("recorded entries are never changed", label)


def nested_effects(chk, r):
    """objects that existed before solve and are not the problem object itself"""
    L = r.L
    ok = {r.q.loc}
    for loc, c in r.pre.heap.items():
        d = r.st.heap.get(loc)
        if loc in ok or d is None or d is c:
            continue
        if isinstance(c, EnvC):
            mods = [m.name for m in r.it.modules.values() if m.env == loc and m.name.startswith("pyqlaw")]
            if mods:
                diff = [k for k, v in d.vars.items() if k not in c.vars or vkey(c.vars[k]) != vkey(v)]
                chk.must("solving leaves no trace in the package", not diff, r.where, f"module variable {mods[0]}.{', '.join(diff)} is changed by solve")


def marker(n, v, st):
    ls = [l for l, _ in G.leaves(v)]
    if all(isinstance(l, bool) for l in ls):
        return G.boolvar(f"{n} of an {MARK}")
    if all(isinstance(l, (int, Poly)) or l is T.INF for l in ls):
        return S(f"{n} of an {MARK}")
    return Opq(f"{n} of an {MARK}", ())


def mentions(v, seen):
    """name of a marker in a value, or None"""
    if isinstance(v, Poly):
        for i in T.all_atoms(v):
            a = T._atoms[i]
            if MARK in str(a.name):
                return str(a.name)
        return None
    if isinstance(v, Node):
        if v.uid in seen:
            return None
        seen.add(v.uid)
        x = mentions(v.var.data, seen) if isinstance(v.var.data, Poly) else (str(v.var.data) if MARK in str(v.var.data) else None)
        if x:
            return x
        for k in v.kids:
            x = mentions(k, seen)
            if x:
                return x
        return None
    if isinstance(v, Opq):
        if MARK in str(v.name):
            return v.name
        return mentions(list(v.args), seen)
    if isinstance(v, (list, tuple)):
        for y in v:
            x = mentions(y, seen)
            if x:
                return x
        return None
    if isinstance(v, Tup):
        return mentions(list(v.items), seen)
    if isinstance(v, dict):
        return mentions(list(v.values()), seen)
    if isinstance(v, str) and MARK in v:
        return v
    return None


def contents(v, st):
    out = [v]
    for loc in reachable(v, st):
        for c, _ in G.leaves(st.heap.get(loc)):
            if isinstance(c, ListC):
                out += list(c.items) + ([c.base.last] if c.base is not None else [])
            elif isinstance(c, InstC):
                out += list(c.attrs.values())
            elif hasattr(c, "elems"):
                out += list(c.elems)
            elif hasattr(c, "items"):
                out += [y for _, y in c.items.values()]
    return out


def independent(chk, r):
    w = r.where
    L = r.L
    seen = set()
    for e in r.st.events[r.n0:]:
        e = Ev(e) if len(e[2]) > 2 else e
        pc, data = (e.pc, e.data) if isinstance(e, Ev) else (e[0], e[2])
        x = mentions(list(data), seen) or mentions(pc, seen)
        chk.must("no call of a step depends on an earlier run", x is None, w, f"{x} reaches a call ({r.name()})")
    for p, (a, b) in L.leafs.items():
        for v in (a, b):
            x = mentions(v, seen) if v is not ABSENT and v is not UNBOUND else None
            chk.must("no carried value depends on an earlier run", x is None, w, f"{x} is carried from step to step ({r.name()})")
    for k, s in r.ends(steps=False) + [("exit", r.st)] + ([("unentered", L.entry_false)] if L.entry_false is not None else []):
        chk.count("ends examined")
        x = mentions(s.pc, seen)
        chk.must("no decision depends on an earlier run", x is None, w, f"{x} decides how a run proceeds ({r.name()})")
        if k == "exit" or k == "unentered":
            for n in LISTS + (["converge", "exitcode"] if k == "exit" else []):
                for v in contents(r.attr(s, n), s):
                    x = mentions(v, seen) if not isinstance(v, (Ref, ArrRef)) and v is not UNBOUND else None
                    chk.must("no result depends on an earlier run", x is None, w, f"{x} remains in {n} ({r.name()})")


# ----------------------------------------------------------------- callees
def callees(chk):
    """functions called in a step leave their array arguments alone"""
    w = World()
    it = w.it
    ph = [OpaqueFn("dynamics", lambda i, s, a, k: i.new_array(s, (6,), [ap(i, s, f"rhs{j}", *a, *k.values()) for j in range(6)]))]
    v = lambda st, n, m: w.arr(st, [S(f"{n}{i}") for i in range(m)])
    P3 = lambda st: Tup([S("mu", pos=True), v(st, "u", 3), v(st, "psi0", 5), v(st, "psi1", 5), v(st, "psi2", 5), v(st, "ptrb", 3)])

    def orbit(st, kep):
        T.reset_facts()
        return w.arr(st, orbit_kep() if kep else orbit_mee())
    plans = [
        ("elements_safety", lambda st: [v(st, "x", 6), v(st, "lo", 6), v(st, "hi", 6)]),
        ("check_convergence_keplerian", lambda st: [v(st, "x", 6), v(st, "t", 5), v(st, "w", 5), v(st, "tol", 5)]),
        ("check_convergence_mee", lambda st: [v(st, "x", 6), v(st, "t", 5), v(st, "w", 5), v(st, "tol", 5)]),
        ("rk4", lambda st: [ph[0], S("t"), S("h"), v(st, "x", 6), P3(st)]),
        ("rkf45", lambda st: [ph[0], S("t"), S("h"), v(st, "x", 6), P3(st), S("tol", pos=True)]),
        ("eom_kep_gauss", lambda st: [S("t"), orbit(st, True), P3(st)]),
        ("eom_mee_with_a_gauss", lambda st: [S("t"), orbit(st, False), P3(st)]),
        ("kep2sv", lambda st: [v(st, "x", 6), S("mu", pos=True)]),
        ("mee_with_a2sv", lambda st: [orbit(st, False), S("mu", pos=True)]),
        ("mee2ea", lambda st: [orbit(st, False)]),
        ("_u_to_thrust_angles", lambda st: [v(st, "u", 3)]),
        ("perturbation_third_body_battin", lambda st: [v(st, "r", 3), v(st, "s", 3), S("gm")]),
        ("perturbation_J2", lambda st: [v(st, "r", 3), it.new_array(st, (3, 3), [S(f"m{i}") for i in range(9)]), S("mu"), S("J2"), S("Re")]),
        ("perturbation_SRP", lambda st: [v(st, "r", 3), S("AU"), S("k")]),
        ("pxformECI2RTN", lambda st: [v(st, "r", 3), v(st, "v", 3)]),
    ]
    for name, mk in plans:
        T.reset_facts()
        st = w.state()
        args = mk(st)
        call(chk, w, st, name, w.where(name), lambda: w.call(name, args, st), args)
    for kind in SETS:
        law = Law(w, kind)
        args = law.args()
        for i in (0, 3):
            call(chk, w, law.st, SETS[kind]["gen"], law.where(), lambda: it.call(law.funs[i], args, {}, law.st), args)
    # the feedback function hands the law the arrays it was given
    T.reset_facts()
    st = w.state()
    names = ["oe", "oeT", "woe"]
    kw = {n: v(st, n, 6 if n == "oe" else 5) for n in names}
    L = lambda s, x: it.new_list(s, x)
    u, psi, dq = v(st, "u", 3), it.new_array(st, (3, 5), [S(f"psi{i}") for i in range(15)]), v(st, "dq", 5)
    kw.update(fun_lyapunov_control=OpaqueFn("law", lambda i, s, a, k: Tup([u, psi, S("q"), dq])), mu=S("mu"), f=S("accel"), rpmin=S("rpmin"), m_petro=S("m"), n_petro=S("n"), r_petro=S("r"), b_petro=S("b"), k_petro=S("k"), wp=S("wp"))
    call(chk, w, st, "lyapunov_control_angles", w.where("lyapunov_control_angles"), lambda: w.call("lyapunov_control_angles", [], st, kw), [kw[n] for n in names])
    chk.used(it)


def call(chk, w, st, name, wh, fn, args):
    it = w.it
    it.mutations.clear()
    it.watch.clear()
    for i, a in enumerate(args):
        if isinstance(a, (ArrRef, Ref, Tup)):
            for loc in reachable(a, st):
                it.watch[loc] = f"argument {i + 1}"
    fn()
    chk.count("functions called in a step")
    for lab, mod, f, line, pc in it.mutations:
        chk.must("functions called in a step leave their arguments alone", False, f"{mod.replace('.', '/')}.py: {f} (line {line})", f"{lab} of {name} is modified in place")
    chk.ok("functions called in a step leave their arguments alone", name)
    it.watch.clear()
