"""C29 nothing undefined is used on any path"""
from .run import *
from .law import Law
from .finished import EXTS
from .c26 import Subject, make, REPORTS, lab as report_label
from sa.interp import Dead
from sa.pkg import REPO, PKG
import ast
import builtins
import itertools
import multiprocessing
import symtable

FEATURES = ["sundman", "duty", "batt", "eta"]


def run(chk):
    chk.rule("every name read in a function is a parameter, a local, a module-level or a built-in name; on every path of every configuration each local, attribute and list entry read has been written, and every call binds to the parameters of its callee")
    chk.assumptions += ["callees of a step other than the element conversions are replaced by models with their own parameter lists; the lists are checked against the real callees",
                        "numbers are not examined here (division by zero and the like are outside this property)"]
    scopes(chk)
    attributes(chk)
    steps(chk)
    defaults(chk)
    all_jobs(chk)
    callees(chk)
    reports(chk)
    chk.floor("names read", 300)
    chk.floor("configurations", 40)
    chk.floor("reports", 60)


# ------------------------------------------------------------------ names
def scopes(chk):
    """every name that is read can be bound"""
    d = os.path.join(REPO, PKG)
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        src = open(os.path.join(d, f)).read()
        table = symtable.symtable(src, f, "exec")
        tree = ast.parse(src)
        stars = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(tree))
        top = {s.get_name() for s in table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for t in walk(table):
            top |= {s.get_name() for s in t.get_symbols() if s.is_declared_global() and s.is_assigned()}
        lines = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name):
                lines.setdefault(n.id, n.lineno)
        for t in walk(table):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                chk.count("names read")
                n = s.get_name()
                wh = f"{PKG}/{f}: {t.get_name()} (line {t.get_lineno()})"
                if s.is_local() and t.get_type() != "module":
                    ok = s.is_parameter() or s.is_assigned() or s.is_imported() or s.is_namespace() or n.startswith(".") or n in ("__class__",)
                elif s.is_free():
                    ok = True
                else:
                    ok = n in top or hasattr(builtins, n) or n in ("__file__", "__name__", "__doc__", "__path__", "__package__") or stars
                if ok:
                    chk.ok("every name read can be bound", wh)
                else:
                    chk.must("every name read can be bound", False, f"{PKG}/{f}: {t.get_name()} (line {lines.get(n, t.get_lineno())})", f"name {n!r} is never bound")


def walk(t):
    yield t
    for c in t.get_children():
        yield from walk(c)


def attributes(chk):
    """attributes read on self are written somewhere"""
    d = os.path.join(REPO, PKG)
    trees = {f: ast.parse(open(os.path.join(d, f)).read()) for f in sorted(os.listdir(d)) if f.endswith(".py")}
    owners = {}
    for f, tree in trees.items():
        for c in tree.body:
            if isinstance(c, ast.ClassDef):
                owners[c.name] = (f, c)
    bound = {}
    for f, tree in trees.items():          # functions bound to objects of a class: their first parameter is self
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and n.args.args and n.args.args[0].arg == "self":
                bound.setdefault("QLaw", []).append((f, n))
    for name, (f, c) in owners.items():
        if any(not (isinstance(b, ast.Name) and b.id in owners) and not (isinstance(b, ast.Name) and b.id == "object") for b in c.bases):
            continue
        family = [c] + [owners[b.id][1] for b in c.bases if isinstance(b, ast.Name) and b.id in owners]
        bodies = [(f, x) for k in family for x in k.body] + bound.get(name, [])
        written = {x.name for k in family for x in k.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
        dynamic = False
        for _, b in bodies:
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    written.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and b in c.body:
                    written.add(n.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    dynamic = True
                elif isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__slots__"):
                    dynamic = True
        for g, b in bodies:
            guards = {x.args[1].value for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    chk.count("attributes read")
                    ok = n.attr in written or n.attr in guards or n.attr.startswith("__") or dynamic
                    wh = f"{PKG}/{g}: {getattr(b, 'name', name)} (line {n.lineno})"
                    if ok:
                        chk.ok("every attribute read is written somewhere", wh)
                    else:
                        chk.must("every attribute read is written somewhere", False, wh, f"self.{n.attr} of {name}")


# ------------------------------------------------------------------ runs
def complaint(r, i=0):
    it = r.it
    out = [f"{x[1]}: {str(x[5])[:160]} at {x[2]}.{x[3]} line {x[4]}" for x in it.raises]
    out += [f"{x[1]} is used before it is defined in {x[2]} line {x[3]}" for x in it.unbound]
    return out[:2]


JOBS = []


def one(chk, what, **kw):
    JOBS.append((chk.pid, chk.tier, chk.seed, what, kw))


def work(i):
    pid, tier, seed, what, kw = JOBS[i]
    sub = Check(pid, tier, seed)
    try:
        configuration(sub, what, **kw)
    except Exception as e:
        return f"{type(e).__name__}: {e} in configuration {what} {kw}"
    return sub


def all_jobs(chk):
    """the configurations are independent: analysed side by side"""
    open_ = []
    with multiprocessing.get_context("fork").Pool(min(6, os.cpu_count() or 1)) as pool:
        for r in pool.imap(work, range(len(JOBS)), 4):
            if isinstance(r, str):
                open_.append(r)
            else:
                chk.merge(r)
    JOBS.clear()
    if open_ and not chk.violations:
        raise Undecided(open_[0])


def configuration(chk, what, **kw):
    text = ", ".join(f"{k}={v}" for k, v in kw.items() if k not in ("hook", "extra")) + (f", {kw['extra']}" if kw.get("extra") else "")
    wh = f"{PKG}/_qlaw.py: QLaw.solve"
    try:
        r = Run(hook=False, **kw)
    except Dead:
        chk.count("configurations")
        chk.must("every accepted configuration runs", False, wh, f"every path of the run fails ({text})")
        return None
    chk.used(r.it)
    chk.count("configurations")
    if not kw.get("peel"):
        # whether something is written before it is read is decided on the first passes, where nothing is forgotten
        r.it.raises[:] = [x for x in r.it.raises if x[1] not in ("UnboundLocalError", "AttributeError", "NameError")]
        r.it.unbound.clear()
    bad = complaint(r)
    w2 = wh
    if r.it.raises:
        x = r.it.raises[0]
        w2 = f"{x[2].replace('.', '/')}.py: {x[3]} (line {x[4]})"
    elif r.it.unbound:
        x = r.it.unbound[0]
        w2 = f"{x[2].replace('.', '/')}.py: line {x[3]}"
    chk.must(f"nothing undefined is used {what}", not bad, w2, f"{bad} ({text})")
    return r


def steps(chk):
    thorough = chk.tier == "thorough"
    for e in P:
        for n in range(5):
            for on in itertools.combinations(FEATURES, n):
                base = dict(elements=e, sundman="sundman" in on, duty="duty" in on, batt="batt" in on)
                etas = ["call", "mixed", "mixed2", "float"] if "eta" in on else ["zero"]
                for i, t in enumerate(etas):
                    for integ in ("rk4", "rkf45"):
                        for v in (0, 1, None):
                            if not thorough and (v != (0, 1, None)[i % 3] and (i or n > 2) or integ == "rkf45" and v == 0):
                                continue
                            one(chk, "in a first step", peel=1, eta=t, integrator=integ, verbosity=v, ptrb=(v != 1), stale=False, **base)
                if n <= 2 and on != ("batt", "eta"):
                    for integ in ("rk4", "rkf45") if n <= 1 or thorough else ("rk4",):
                        one(chk, "in the first two steps", peel=2, eta=etas[0], integrator=integ, verbosity=None, ptrb=n != 1, stale=False, **base)
                if n <= 1 or thorough and n <= 2:
                    for integ in ("rk4", "rkf45"):
                        for v in (0, None):
                            one(chk, "in any step", eta=etas[-1], integrator=integ, verbosity=v, ptrb=v is None, stale=False, **base)
                if thorough and n <= 1 and on != ("eta",) and on != ("batt",):
                    one(chk, "in the first three steps", peel=3, eta=etas[0], integrator="rkf45", verbosity=None, stale=False, **base)
        one(chk, "in a later run", peel=1, elements=e, eta="call", stale=True, verbosity=None)


DEFAULTS = ["rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp", "integrator", "anomaly_grid_size", "tol_oe", "oe_min", "oe_max", "nan_angles_threshold", "use_sundman", "relaxed_tol_factor", "exit_at_relaxed", "mu", "verbosity"]
OPTIONAL = ["tf_max", "t_step", "mass_min", "woe", "duty_cycle", "battery_initial", "battery_capacity", "battery_charge_discharge_rate", "require_full_recharge"]


def defaults(chk):
    """settings left to their defaults, one at a time and all together"""
    for e in P:
        for d in [()] + [(x,) for x in DEFAULTS + OPTIONAL] + [tuple(DEFAULTS), tuple(OPTIONAL), tuple(DEFAULTS + OPTIONAL)]:
            for t in (5, 6) if len(d) != 1 else (5,):
                one(chk, "with defaults", peel=1, elements=e, eta="mixed" if len(d) < 3 else "zero", defaults=d, target=t, batt=len(d) != 1 or d[0] not in OPTIONAL, duty=len(d) != 1 or d[0] not in OPTIONAL, stale=False,
                    inline=("elements_safety", "check_convergence_keplerian", "check_convergence_mee") if d and d[0] in ("tol_oe", "oe_min", "oe_max", "woe", "relaxed_tol_factor") and len(d) == 1 else ())
        for x in (dict(print_frequency=S("every", pos=True)), dict(print_frequency=1), dict(print_frequency=7)):
            one(chk, "with a print frequency", peel=1, elements=e, eta="zero", verbosity=None, extra=x, duty=False, batt=False, stale=False)


# ------------------------------------------------------------------ callees
def callees(chk):
    """the real callees accept what a step hands them"""
    for e in P:
        T.reset_facts()
        r = Run(elements=e, hook=False, peel=1, eta="mixed", batt=False, duty=False, stale=False)
        seen = {}
        for x in r.st.events[r.n0:]:
            ev = Ev(x)
            if ev.kind in ("law", "dqdt", "integ", "ptrb", "threshold"):
                seen.setdefault(ev.kind, ev)
        for k in ("law", "dqdt", "integ", "ptrb"):
            chk.must("a step evaluates the law, its rate, the perturbations and the integrator", k in seen, r.where, k)
        # evaluators generated for this element set
        L = Law(World(), e)
        for kind, i in (("law", 0), ("dqdt", 3)):
            ev = seen.get(kind)
            if ev is None:
                continue
            want = [shape(r, v) for v in ev.args]
            chk.count("callees")
            st = L.st.fork()
            args = [L.w.arr(st, [S(f"g{i}_{j}") for j in range(n)]) if n else S(f"g{i}", pos=True) for i, n in enumerate(want)]
            n0, u0 = len(L.w.it.raises), len(L.w.it.unbound)
            try:
                L.w.it.call(L.funs[i], args, {}, st)
                ok = True
            except Dead:
                ok = False
            bad = L.w.it.raises[n0:] + L.w.it.unbound[u0:]
            chk.must("a generated evaluator accepts what a step hands it", ok and not bad, ev.where(), f"{kind} of {e}: {str(bad[:1])[:300]}")
        chk.used(L.w.it)
        # perturbation object
        ev = seen.get("ptrb")
        if ev is not None:
            w = World()
            cls = find(w.it, "SpicePerturbations")
            m = cls.lookup("get_perturbations_RTN")
            if chk.must("the perturbation object offers what a step calls", m is not None, f"{PKG}/_perturbations.py: SpicePerturbations", "get_perturbations_RTN"):
                st = w.state()
                n0 = len(w.it.raises)
                try:
                    w.it.bind_call(m, [None] + list(ev.args), {}, st)
                except Dead:
                    pass
                chk.count("callees")
                chk.must("the perturbation object accepts what a step hands it", len(w.it.raises) == n0, ev.where(), str(w.it.raises[n0:][:1]))
        # dynamics: called by the integrators, fed with the step's parameters
        for integ in ("rk4", "rkf45"):
            T.reset_facts()
            r = Run(elements=e, integrator=integ, hook=False, peel=1, eta="zero", batt=False, duty=False, stale=False)
            ev = next((Ev(x) for x in r.st.events[r.n0:] if x[1] == "integ"), None)
            if not chk.must("a step integrates with the requested scheme", ev is not None, r.where, integ):
                continue
            eom = "pyqlaw._eom." + P[e][1]
            met = []

            def model(it, st, args, kw):
                met.append([len(args), tuple(kw)])
                f = find(it, P[e][1])
                pos = [p.arg for p in f.node.args.args]
                v = dict(zip(pos, args))
                v.update(kw)
                met[-1] = [shape_of(it, st, v.get(n)) for n in pos]
                return it.new_array(st, (6,), [ap(it, st, f"rhs{i}", *args, *kw.values()) for i in range(6)])
            w = World({eom: model})
            st = w.state()
            f = find(w.it, integ)
            par = Tup([w.arr(st, p) if isinstance(p, list) else p for p in ev.args[3]])
            vals = [find(w.it, P[e][1]), S("t"), S("h", pos=True), w.arr(st, [S(f"x{i}") for i in range(6)]), par] + list(ev.args[4:])
            try:
                w.it.call(f, [v for v in vals if v is not None], {}, st)
            except Dead:
                pass
            chk.count("callees")
            chk.must("an integrator accepts what a step hands it", bool(met) and not w.it.raises and not w.it.unbound, ev.where(), f"{integ}: {str((w.it.raises + w.it.unbound)[:1])[:300]}")
            # one evaluation of the real dynamics
            w2 = World()
            s2 = w2.state()
            par = Tup([w2.arr(s2, p) if isinstance(p, list) else p for p in ev.args[3]])
            x = [S("a", pos=True), S("e1"), S("e2"), S("e3"), S("e4"), S("e5")]
            a = [S("t"), w2.arr(s2, x), par]
            try:
                if met:
                    w2.call(P[e][1], a[:len(met[0])], s2)
            except Dead:
                pass
            chk.count("callees")
            chk.must("the dynamics accept what the integrator hands them", not w2.it.raises and not w2.it.unbound, w2.where(P[e][1]), f"{str((w2.it.raises + w2.it.unbound)[:1])[:300]}")


def shape(r, v):
    return len(v) if isinstance(v, list) else 0


def shape_of(it, st, v):
    x = it.models.as_nested(it, v, st) if v is not None else None
    return x[0] if x else None


# ------------------------------------------------------------------ reports
def reports(chk):
    for e in P:
        for n in (2, 4) if chk.tier == "quick" else (1, 2, 3, 4, 6):
            r = make(e, n)
            more = [("pretty", {}), ("save_to_dict", dict(filepath="a.json", canonical_units=None, save_control_angles=True)), ("get_cartesian_history", dict(interpolate=True, steps=2, kind="cubic"))] \
                + [("plot_elements_history", {}), ("plot_controls", {}), ("plot_trajectory_2d", {}), ("plot_trajectory_3d", dict(steps=3))]
            for name, kw in REPORTS + more:
                st = r.st.fork()
                chk.count("reports")
                r.it.raises.clear()
                r.it.unbound.clear()
                wh = r.where(name)
                try:
                    r.report(name, kw, st)
                    dead = False
                except Dead:
                    dead = True
                bad = complaint(r)
                if bad and r.it.raises:
                    x = r.it.raises[0]
                    wh = f"{x[2].replace('.', '/')}.py: {x[3]} (line {x[4]})"
                chk.must("no report of a finished run uses anything undefined", not bad and not dead, wh, f"{bad} ({report_label(e, name, kw)}, {n} steps)")
            chk.used(r.it)
