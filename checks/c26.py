"""C26 reporting is read-only"""
from .finished import *
from .c22 import independent, marker
from sa.loops import reachable

REPORTS = [("pretty", {}), ("pretty_results", {}), ("pretty_settings", {}), ("interpolate_states", {}), ("interpolate_states", dict(kind="linear")),
           ("get_cartesian_history", {}), ("get_cartesian_history", dict(get_t_evals=True)), ("get_cartesian_history", dict(interpolate=True, steps=3)), ("get_cartesian_history", dict(interpolate=True, steps=3, get_t_evals=True, kind="linear")),
           ("save_to_dict", dict(filepath=None)), ("save_to_dict", dict(filepath=None, save_control_angles=True)), ("save_to_dict", dict(filepath="result.json", canonical_units="units")),
           ("evaluate_osculating_qdot", None),
           ("plot_battery_history", {}), ("plot_battery_history", dict(TU=S("TU", pos=True), BU=S("BU", pos=True))), ("plot_efficiency", {}), ("plot_efficiency", dict(TU=S("TU", pos=True))), ("plot_Q", {}), ("plot_Q", dict(TU=S("TU", pos=True)))] \
    + [("plot_elements_history", dict(to_keplerian=k, plot_mass=m, plot_periapsis=p, TU=S("TU", pos=True))) for k in (False, True) for m in (False, True) for p in (False, True)] \
    + [("plot_controls", dict(show_anomaly=a, TU=S("TU", pos=True))) for a in (False, True)] \
    + [("plot_trajectory_2d", dict(interpolate=i, steps=3)) for i in (False, True)] \
    + [("plot_trajectory_3d", dict(interpolate=i, steps=3, plot_sphere=p)) for i in (False, True) for p in (False, True)]


def equal_axis(it, st, args, kw):
    it.event(st, "call", Opq("attr", (args[0], "set_equal_axis")), tuple(args), dict(kw), ([it.models.contents_of(it, st, x) for x in args], dict(kw)))
    return None


class Subject(Finished):
    def report(self, name, kw, st):
        it = self.it
        if kw is None:
            return self.call(name, st, self.w.arr(st, [S(f"o{i}") for i in range(6)]), S("accel"))
        return self.call(name, st, **kw)


def make(e, n):
    r = Subject(e, n=n)
    r.it.opaque["pyqlaw._plot_helper.set_equal_axis"] = equal_axis
    r.it.setattr(r.q, "anomaly_grid_size", 2, r.st)
    r.it.setattr(r.q, "etas", r.it.new_list(r.st, [r.it.new_list(r.st, c) for c in r.etas]), r.st)
    return r


def run(chk):
    chk.rule("no store, augmented assignment, deletion or mutating method on any path of a reporting function and its callees reaches the problem object, its settings, its recorded lists or an object in them; what a report shows after other reports and a further run is what it shows on a fresh object")
    chk.assumptions += ["matplotlib, json and scipy do not modify the data handed to them", "recorded lists of concrete length 2 (thorough: 1 to 5); the functions treat all entries alike"]
    for e in P:
        for n in (2,) if chk.tier == "quick" else (1, 2, 3, 5):
            one(chk, e, n)
    chk.floor("reports analysed", 60)


def lab(e, name, kw):
    return f"{e}: {name}({', '.join(f'{k}={v}' for k, v in (kw or {}).items())})"


def one(chk, e, n):
    r = make(e, n)
    it, q = r.it, r.q
    for name, kw in REPORTS:
        chk.count("reports analysed")
        st = r.st.fork()
        wh = r.where(name)
        attrs = dict(st.heap[q.loc].attrs)
        it.watch.clear()
        it.mutations.clear()
        it.raises.clear()
        it.unbound.clear()
        for k, v in attrs.items():
            for loc in reachable(v, st):
                if loc != q.loc:
                    it.watch.setdefault(loc, k)
        before = {k: contents(it, st, v) for k, v in attrs.items()}
        mods = globals_(it, st)
        try:
            r.report(name, kw, st)
        except Dead:
            pass
        # changes through the object
        for l, mod, fn, line, pc in it.mutations:
            chk.must("no report modifies an object of the problem", False, f"{mod.replace('.', '/')}.py: {fn} (line {line})", f"{l} is modified in place by {lab(e, name, kw)}")
        for k, v in attrs.items():
            now = st.heap[q.loc].attrs.get(k, UNBOUND)
            same = now is not UNBOUND and contents(it, st, now) == before[k]
            chk.must("every attribute keeps its value", same, wh, f"{k} is changed by {lab(e, name, kw)}")
        chk.must("no module variable changes", globals_(it, st) == mods, wh, lab(e, name, kw))
        chk.ok("no report modifies an object of the problem", wh)
        it.watch.clear()
        new = [k for k in st.heap[q.loc].attrs if k not in attrs]
        if new:
            later_run(chk, e, new, wh, name)
    later_reports(chk, e, n, r)
    chk.used(it)


def globals_(it, st):
    out = []
    for m in it.modules.values():
        if m.name.startswith("pyqlaw") or m.name == "pyqlaw":
            for k, v in sorted(st.heap[m.env].vars.items()):
                out.append((m.name, k, vkey(v), contents(it, st, v)))
    return out


def contents(it, st, v, depth=0):
    """structural key of everything reachable"""
    if isinstance(v, Node):
        if any(isinstance(l, (Ref, ArrRef, Tup)) for l, _ in G.leaves(v)):
            return tuple((contents(it, st, l, depth + 1), vkey(c)) for l, c in G.leaves(v))
        return vkey(v)
    if isinstance(v, Tup):
        return ("t",) + tuple(contents(it, st, x, depth + 1) for x in v.items)
    if isinstance(v, (tuple, list)):
        return ("t",) + tuple(contents(it, st, x, depth + 1) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple((k, contents(it, st, x, depth + 1)) for k, x in sorted(v.items(), key=lambda p: repr(p[0])))
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, ArrRef):
        return ("a", v.shape) + tuple(vkey(x) for x in it.arr_elems(st, v))
    if isinstance(v, Ref):
        c = st.heap[v.loc]
        if isinstance(c, Node):
            return ("n", vkey(c))
        if isinstance(c, ListC):
            return ("l", vkey(c.base) if c.base is not None else None) + tuple(contents(it, st, x, depth + 1) for x in c.items)
        if hasattr(c, "items") and isinstance(c.items, dict):
            return ("d",) + tuple(contents(it, st, x, depth + 1) for k, x in c.items.items())
        return ("o", v.loc)
    if isinstance(v, OpaqueFn):
        return ("f", v.name)
    return vkey(v)


def shown(r, st, name, kw):
    """what a report returns and shows, as structural keys"""
    it = r.it
    n0 = len(st.events)
    v = r.report(name, kw, st)
    parts = []
    if name == "interpolate_states":
        t = S("any time")
        parts = [vkey(it.call(f, [t], {}, st)) for f in it.try_iterate(v, st)]
    else:
        parts = [contents(it, st, v)]
    for pc, kind, data, mod, fn, line in st.events[n0:]:
        if kind == "call":
            parts.append(tuple(contents(it, st, x) if not isinstance(x, (tuple, dict, list)) else repr(key(it, st, x)) for x in data))
    return parts


def key(it, st, x):
    if isinstance(x, dict):
        return tuple((k, key(it, st, v)) for k, v in sorted(x.items()))
    if isinstance(x, (tuple, list)):
        return tuple(key(it, st, v) for v in x)
    if isinstance(x, str):
        return x
    return contents(it, st, x)


def later_reports(chk, e, n, r):
    """all reports twice, then another run, then all reports: as on a fresh object"""
    it = r.it
    st = r.st.fork()
    for name, kw in REPORTS + REPORTS:
        r.report(name, kw, st)
    fresh = r.st.fork()
    for s in (st, fresh):
        replace(r, s)
    for name, kw in REPORTS:
        chk.count("reports after another run")
        wh = r.where(name)
        a, b = shown(r, st.fork(), name, kw), shown(r, fresh.fork(), name, kw)
        if len(a) != len(b) or any(x != y for x, y in zip(a, b)):
            chk.must("a report after other reports and another run shows that run", False, wh, f"{lab(e, name, kw)} differs from the same report on a fresh object")
        chk.ok("a report after other reports and another run shows that run", wh)


def replace(r, st):
    """a different run of another length is recorded"""
    it = r.it
    n = r.n + 1
    L = lambda x: it.new_list(st, x)
    N = n + 1
    h = dict(times=L([T.ZERO] + [S(f"u{i}") for i in range(1, N)]), states=L([r.oe0] + [it.new_array(st, (6,), [S(f"z{i}_{j}") for j in range(6)]) for i in range(1, N)]), masses=L([S(f"zm{i}") for i in range(N)]),
             battery=L([S(f"zb{i}") for i in range(N)]), controls=L([L([S(f"za{i}"), S(f"zz{i}"), S(f"zt{i}")]) for i in range(n)]), etas=L([L([S(f"ze{i}"), S(f"zr{i}")]) for i in range(n)]),
             etas_bounds=L([L([S(f"zf{i}"), S(f"zg{i}")]) for i in range(n)]), Qs=L([S(f"zQ{i}") for i in range(n)]), dQdts=L([S(f"zd{i}") for i in range(n)]))
    for k, v in h.items():
        it.setattr(r.q, k, v, st)


def later_run(chk, e, new, wh, name):
    """attributes a report leaves behind reach no later run"""
    r = Run(elements=e, hook=False, duty=False, batt=False, stale={k: Opq(f"{k} of an earlier run", ()) for k in new})
    sub = Check(chk.pid, chk.tier, chk.seed)
    independent(sub, r)
    for v in sub.violations[:1]:
        chk.must("what a report leaves behind does not reach a later run", False, wh, f"{', '.join(new)} left by {name}")
