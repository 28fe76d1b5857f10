"""C30 published names exist, plots draw the recorded histories"""
from .finished import *
from .c22 import marker
from sa.pkg import REPO, PKG
import ast

PUBLIC = """symbolic_qlaw_keplerian symbolic_qlaw_mee_with_a eom_kep_gauss eom_mee_with_a_gauss rk4 rkf45 lyapunov_control_angles get_semiMajorAxis get_eccentricity get_inclination get_raan get_omega
get_trueanom get_period sv2kep kep2sv get_orbit_coordinates kep2mee mee2kep mee2mee_with_a kep2mee_with_a mee_with_a2kep mee_with_a2sv ta2ea mee2ea check_convergence_keplerian check_convergence_mee elements_safety
get_sphere_coordinates plot_sphere_wireframe get_ellipsoid_coordinates plot_ellipsoid_wireframe set_equal_axis plot_elements_history perturbation_third_body_battin perturbation_J2 pxformECI2RTN SpicePerturbations QLaw""".split()
METHODS = """mu elements_type integrator set_problem solve evaluate_osculating_qdot interpolate_states get_cartesian_history pretty pretty_results pretty_settings save_to_dict
plot_elements_history plot_battery_history plot_controls plot_trajectory_2d plot_trajectory_3d plot_efficiency plot_Q""".split()
DEG = T.const(180) / T.PI


def run(chk):
    chk.rule("each name bound by an import statement of the package resolves in the module it names; each published name and method resolves; the (x, y[, z]) data of the drawing calls reached by every plot have the value numbers of the recorded histories, unit factors and orbits")
    chk.assumptions += ["the drawing library draws the data handed to it", "recorded lists of concrete length 3 (thorough: 2 to 5); the functions treat all entries alike"]
    names(chk)
    for e in P:
        for n in (3,) if chk.tier == "quick" else (2, 3, 4, 5):
            for kw in ({}, dict(TU=S("TU", pos=True))):
                for k in (None, False, True):
                    for m in (None, False, True):
                        for p in (None, False, True):
                            c = dict(kw, **{a: b for a, b in (("to_keplerian", k), ("plot_mass", m), ("plot_periapsis", p)) if b is not None})
                            elements(chk, e, n, c)
                battery(chk, e, n, kw)
                battery(chk, e, n, dict(kw, BU=S("BU", pos=True)))
                for a in (None, False, True):
                    controls(chk, e, n, kw if a is None else dict(kw, show_anomaly=a))
                efficiency(chk, e, n, kw)
                quotient(chk, e, n, kw)
            for kw in ({}, dict(interpolate=False), dict(interpolate=True, steps=4), dict(interpolate=False, steps=4)):
                trajectory(chk, e, n, "plot_trajectory_2d", kw)
            for kw in (dict(steps=4), dict(interpolate=False), dict(interpolate=True, steps=4, plot_sphere=False), dict(interpolate=False, plot_sphere=True, sphere_radius=S("rs", pos=True), scale=S("sc", pos=True))):
                trajectory(chk, e, n, "plot_trajectory_3d", kw)
    outline(chk)
    sphere(chk)
    ranges(chk)
    chk.floor("plots analysed", 100)


# ------------------------------------------------------------------ names
def names(chk):
    w = World()
    it = w.it
    d = os.path.join(REPO, PKG)
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(d, f)).read())
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and (n.level == 1 or (n.module or "").split(".")[0] == PKG):
                mod = n.module if n.level == 0 else PKG + ("." + n.module if n.module else "")
                for a in n.names:
                    chk.count("imported names")
                    chk.must("every imported name is defined by its module", a.name == "*" or defined(it, mod, a.name), f"{PKG}/{f}: line {n.lineno}", f"{a.name} from {mod}")
    init = ast.parse(open(os.path.join(d, "__init__.py")).read())
    bound = {}
    for n in ast.walk(init):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                bound[a.asname or a.name] = (n.module if n.level == 0 else PKG + ("." + n.module if n.module else ""), a.name)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    bound[t.id] = None
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bound[n.name] = None
    stars = [PKG + ("." + n.module if n.module else "") for n in ast.walk(init) if isinstance(n, ast.ImportFrom) and n.level == 1 and any(a.name == "*" for a in n.names)]
    for p in PUBLIC:
        chk.count("published names")
        ok = p in bound or any(defined(it, m, p) for m in stars)
        chk.must("every published name can be imported from the package", ok, f"{PKG}/__init__.py", p)
        src = bound.get(p)
        if src:
            # published under its own name: the module's object of that name
            chk.must("a published name denotes the function of that name", src[1] == p or not defined(it, src[0], p), f"{PKG}/__init__.py", f"{p} is {src[1]} of {src[0]}")
    # __all__ lists
    for n in ast.walk(init):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
            listed = [x.value for x in n.value.elts if isinstance(x, ast.Constant)]
            for x in listed:
                chk.must("every listed name exists", x in bound, f"{PKG}/__init__.py: line {n.lineno}", x)
            for p in PUBLIC:
                chk.must("every published name is listed", p in listed, f"{PKG}/__init__.py: line {n.lineno}", p)
    r = Finished()
    for m in METHODS:
        chk.count("methods")
        try:
            v = r.it.getattr(r.q, m, r.st)
            ok = v is not UNBOUND and not r.it.raises
        except Dead:
            ok = False
        chk.must("every method of the problem object exists", ok, f"{PKG}/_qlaw.py: QLaw", m)
        r.it.raises.clear()


def defined(it, mod, name):
    if mod == PKG:
        return (PKG + "." + name) in it.modules or os.path.exists(os.path.join(REPO, PKG, name + ".py"))
    m = it.modules.get(mod)
    if m is None:
        if not os.path.exists(os.path.join(REPO, *mod.split(".")) + ".py"):
            return False
        it.load(mod)
        m = it.modules.get(mod)
    return it.state0.heap[m.env].vars.get(name, UNBOUND) is not UNBOUND or os.path.exists(os.path.join(REPO, *mod.split("."), name + ".py"))


# ------------------------------------------------------------------ drawing
class Drawing:
    def __init__(self, chk, e, n, name, kw):
        chk.count("plots analysed")
        self.chk, self.name, self.kw = chk, name, kw
        self.r = r = Finished(e, n=n)
        self.it = r.it
        self.n = n
        self.st = r.st.fork()
        self.lab = f"{e}: {name}({', '.join(f'{k}={v}' for k, v in kw.items())})"
        self.wh = r.where(name)
        self.expected()
        self.out = r.call(name, self.st, **kw)
        chk.must("no plot of a finished run fails", not r.it.raises and not r.it.unbound, self.wh, f"{reportable(r.it, r)[:1]} ({self.lab})")
        self.series = [d for d in r.drawn(self.st)]
        self.TU = kw.get("TU", T.ONE)
        self.t = [x * self.TU for x in r.times]
        chk.used(r.it)

    def expected(self):
        pass

    def close(self):
        pass

    def rows(self, v):
        """one-dimensional data of an argument"""
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "seq":
            if len(v[1]) == 1 or (len(v[1]) == 2 and 1 in v[1]) or v[1] == ():
                return list(v[2])
            return None
        return [v]

    def eq(self, a, b, pc=None):
        if len(a) != len(b):
            return False
        sub = Check(self.chk.pid, self.chk.tier, self.chk.seed)
        for x, y in zip(a, b):
            if isinstance(x, Opq) or isinstance(y, Opq):
                if vkey(x) != vkey(y):
                    return False
                continue
            if not sub.eq("", x, y, "", self.st.pc if pc is None else pc) or sub.violations:
                return False
        return True

    def find(self, data, methods=("plot", "step", "scatter"), on=None):
        """drawing calls with these data, unconditional on this path"""
        out = []
        for o, m, a, k, pc, wh in self.series:
            if m not in methods or (on is not None and vkey(o) != vkey(on)):
                continue
            if not always(self.st, pc):
                continue
            cols = [self.rows(x) for x in a[:len(data)] if not isinstance(x, str)]
            if len(cols) == len(data) and all(c is not None and self.eq(c, d) for c, d in zip(cols, data)):
                out.append((o, m, a, k, pc, wh))
        return out

    def need(self, what, data, methods=("plot", "step", "scatter"), on=None, label=None, others=()):
        """the series is drawn (and not under the name of another one)"""
        f = self.find(data, methods, on)
        if not self.chk.must(f"{what} is drawn", bool(f), self.wh, f"no drawing call draws the {what} ({self.lab}); drawn: {self.summary()}"):
            return None
        if label is not None:
            wrong = [x for x in f if x[3].get("label") in others]
            if len(wrong) == len(f):
                self.chk.must(f"{what} carries its own name", False, wrong[0][5], f"drawn as {wrong[0][3].get('label')!r} ({self.lab})")
            self.chk.ok(f"{what} carries its own name", self.wh)
        return f[0][0]

    def summary(self):
        return "; ".join(f"{m}({', '.join(str(self.rows(x))[:60] for x in a[:3])}, label={k.get('label')})" for o, m, a, k, pc, wh in self.series)[:400]

    def sets(self, on, key):
        """settings of an axis"""
        out = []
        for pc, kind, data, mod, fn, line in self.st.events[self.r.n0:]:
            if kind == "call" and isinstance(data[0], Opq) and data[0].name == "attr" and vkey(data[0].args[0]) == vkey(on):
                m = data[0].args[1]
                if m == "set" and key in data[2]:
                    out.append((data[2][key], f"{mod.replace('.', '/')}.py: {fn} (line {line})"))
                elif m == "set_" + key and data[1]:
                    out.append((data[1][0], f"{mod.replace('.', '/')}.py: {fn} (line {line})"))
        return out


def always(st, pc):
    return vkey(pc) == vkey(st.pc) or G.b_implies(st.pc, pc) is True


def mul(a, b):
    return lift(lambda u, v: u * v, a, b)


def elements(chk, e, n, kw):
    d = Drawing(chk, e, n, "plot_elements_history", kw)
    r = d.r
    kep = kw.get("to_keplerian", False) and e != "keplerian"
    hist = [r.kep(x) for x in r.states] if kep else r.states
    mult = [T.ONE, T.ONE] + [DEG] * 3 if kep else [T.ONE] * 5
    names = ["a", "e", "i", "raan", "om", "ta"] if kep else NAMES[e]
    panels = []
    xT = r.it.models.as_nested(r.it, r.oeT, r.st)[1]
    kT = r.kepT() if kep else None
    tol = r.it.models.as_nested(r.it, r.attr("tol_oe"), r.st)[1]
    for j in range(5):
        o = d.need(f"history of element {names[j]}", [d.t, [mul(x[j], mult[j]) for x in hist]], label=names[j], others=[x for x in names if x != names[j]])
        if o is None:
            continue
        panels.append(o)
        for v, wh in d.sets(o, "ylabel"):
            chk.must("the axis of an element carries its name", v not in names or v == names[j], wh, f"axis of {names[j]} is named {v!r} ({d.lab})")
        # target
        if kep:
            want = [mul(kT[j], mult[j])]
            f = d.find([want], ("axhline",), o) or d.find([want * len(d.t)], ("hlines",), o) or d.find([d.t, want * len(d.t)], on=o) or d.find([[d.t[0], d.t[-1]], want * 2], on=o)
            chk.must("the target of an element is drawn on its axis", bool(f), d.wh, f"target of {names[j]} ({d.lab}); drawn: {d.summary()}")
        else:
            lo, hi = [xT[j] - tol[j]] * len(d.t), [xT[j] + tol[j]] * len(d.t)
            f = d.find([d.t, lo, hi], ("fill_between",), o) or d.find([d.t, hi, lo], ("fill_between",), o) or d.find([d.t, lo[:1], hi[:1]], ("fill_between",), o) or d.find([lo[:1], hi[:1]], ("axhspan",), o)
            chk.must("the tolerance band of the target is drawn on the element's axis", bool(f), d.wh, f"target of {names[j]} ({d.lab}); drawn: {d.summary()}")
    ks = [vkey(o) for o in panels]
    chk.must("every element has its own axis", len(set(ks)) == len(ks), d.wh, d.lab)
    if kw.get("plot_mass", True):
        o = d.need("history of mass", [d.t, r.masses])
    else:
        fast = [lift(lambda v: T.fmod(v, 2 * T.PI) * DEG, x[5]) for x in hist]
        o = d.need(f"history of element {names[5]}", [d.t, fast], label=names[5], others=names[:5])
    if o is not None:
        chk.must("every element has its own axis", vkey(o) not in ks, d.wh, d.lab)
    if kw.get("plot_periapsis", False):
        if kep or e == "keplerian":
            peri = [lift(lambda a, b: a * (1 - b), x[0], x[1]) for x in hist]
        else:
            peri = [x[0] * (1 - T.fsqrt(x[1] * x[1] + x[2] * x[2])) for x in hist]
        d.need("history of the periapsis radius", [d.t, peri], on=panels[0] if panels else None)


def battery(chk, e, n, kw):
    d = Drawing(chk, e, n, "plot_battery_history", kw)
    r = d.r
    BU = kw.get("BU", T.ONE)
    o = d.need("history of the battery charge", [d.t, [x * BU for x in r.battery]])
    lo, hi = S("blo") * BU, S("bhi") * BU
    for what, v, mine, other in (("lower battery limit", lo, "min capacity", "max capacity"), ("upper battery limit", hi, "max capacity", "min capacity")):
        f = d.find([[v]], ("axhline",), o) or d.find([d.t, [v] * len(d.t)], on=o)
        chk.must(f"{what} is drawn", bool(f), d.wh, f"{d.lab}; drawn: {d.summary()}")
        chk.must(f"{what} carries its own name", not f or any(x[3].get("label") != other for x in f), d.wh, d.lab)


def controls(chk, e, n, kw):
    d = Drawing(chk, e, n, "plot_controls", kw)
    r = d.r
    t = d.t[:-1]
    labels = ["alpha", "beta", "throttle, %", "Anomaly"]
    for what, y, l in (("history of the in-plane angle", [c[0] * DEG for c in r.controls], "alpha"), ("history of the out-of-plane angle", [c[1] * DEG for c in r.controls], "beta"),
                       ("history of the throttle", [c[2] * 100 for c in r.controls], "throttle, %")):
        d.need(what, [t, y], label=l, others=[x for x in labels if x != l])
    if kw.get("show_anomaly", True):
        s = r.st.fork()
        wr = [r.w.elems(s, r.w.call("wrap", [r.w.arr(s, [x[5]])], s))[0] for x in r.states]
        wr = [mul(v, DEG) for v in wr]
        d.need("history of the anomaly", [d.t, wr], label="Anomaly", others=labels[:3])


def efficiency(chk, e, n, kw):
    d = Drawing(chk, e, n, "plot_efficiency", kw)
    r = d.r
    t = d.t[:-1]
    labels = ["eta_a", "eta_a_min", "eta_r", "eta_r_min"]
    on = {}
    for what, y, l in (("history of the absolute effectivity", [x[0] for x in r.etas], "eta_a"), ("absolute effectivity threshold", [x[0] for x in r.bounds], "eta_a_min"),
                       ("history of the relative effectivity", [x[1] for x in r.etas], "eta_r"), ("relative effectivity threshold", [x[1] for x in r.bounds], "eta_r_min")):
        on[l] = d.need(what, [t, y], label=l, others=[x for x in labels if x != l])
    for a in ("eta_a", "eta_r"):
        if on[a] is not None and on[a + "_min"] is not None:
            chk.must("each effectivity shares the axis of its threshold", vkey(on[a]) == vkey(on[a + "_min"]), d.wh, d.lab)


def quotient(chk, e, n, kw):
    d = Drawing(chk, e, n, "plot_Q", kw)
    r = d.r
    t = d.t[:-1]
    d.need("history of the quotient", [t, r.Qs], label="Q", others=["|dQ/dt|, [1/TU]"])
    d.need("history of the quotient rate", [t, r.dQ], label="|dQ/dt|, [1/TU]", others=["Q"])


class Trajectory(Drawing):
    def expected(self):
        r, kw = self.r, self.kw
        self.it.opaque[PKG + "._plot_helper.set_equal_axis"] = recorded("set_equal_axis")
        self.it.opaque[PKG + "._plot_helper.plot_sphere_wireframe"] = recorded("plot_sphere_wireframe")
        s = r.st.fork()
        two = self.name.endswith("2d")
        self.dim = 2 if two else 3
        interp_ = kw.get("interpolate", not two)
        cart = r.call("get_cartesian_history", s, interpolate=interp_, **({"steps": kw["steps"]} if "steps" in kw else {}))
        sh, v = r.it.models.as_nested(r.it, cart, s)
        m = sh[1]
        self.cart = [list(v[i * m:(i + 1) * m]) for i in range(3)]
        self.orbits = []
        for x in (list(r.it.models.as_nested(r.it, r.oe0, s)[1]), list(r.it.models.as_nested(r.it, r.oeT, s)[1])[:5] + [T.ZERO]):
            k = r.kep(x) if r.elements != "keplerian" else x
            o = opaque_outline(r.it, s, [r.w.arr(s, k), S("mu", pos=True)], {})
            sh, v = r.it.models.as_nested(r.it, o, s)
            m = sh[1]
            self.orbits.append([list(v[i * m:(i + 1) * m]) for i in range(3)])
        r.it.raises.clear()
        r.it.unbound.clear()


def recorded(name):
    def f(it, st, args, kw):
        it.event(st, "helper", name, tuple(args), dict(kw), ([it.models.contents_of(it, st, x) for x in args], {k: it.models.contents_of(it, st, x) for k, x in kw.items()}))
        return None
    return f


def trajectory(chk, e, n, name, kw):
    d = Trajectory(chk, e, n, name, kw)
    labels = ["Initial", "Final", "transfer"]
    D = d.dim
    for what, data, l in (("initial orbit", d.orbits[0], "Initial"), ("target orbit", d.orbits[1], "Final"), ("transfer", d.cart, "transfer")):
        d.need(what, data[:D], label=l, others=[x for x in labels if x != l], methods=("plot", "plot3D"))
    for what, i in (("start of the transfer", 0), ("end of the transfer", -1)):
        d.need(what, [[x[i]] for x in d.cart[:D]], methods=("scatter", "plot", "scatter3D", "plot3D"))
    sph = kw.get("plot_sphere", True) and D == 3
    calls = [x[2] for x in d.st.events[d.r.n0:] if x[1] == "helper"]
    ev = [c for c in calls if c[0] == "plot_sphere_wireframe"]
    if D == 3:
        chk.must("the central body is drawn as requested", bool(ev) == bool(sph), d.wh, d.lab)
        if ev and sph:
            rad = ev[0][1][1] if len(ev[0][1]) > 1 else ev[0][2].get("radius")
            chk.eq("the central body has the requested radius", rad, kw.get("sphere_radius", T.const(T.Fr(35, 100))), d.wh, d.st.pc)
    for c in calls:
        if c[0] == "set_equal_axis":
            a = dict(zip(("ax", "xlims", "ylims", "zlims", "scale"), c[3][0]))
            a.update(c[3][1])
            for q, row in zip(("xlims", "ylims", "zlims"), d.cart):
                v = d.rows(a.get(q))
                s = d.st.fork()
                lo = r_call(d, "min", row)
                hi = r_call(d, "max", row)
                chk.must("the axis limits contain the transfer", v is not None and len(v) == 2 and d.eq(v, [lo, hi]), d.wh, f"{q} ({d.lab})")
            if "scale" in kw:
                chk.must("the requested axis scale is used", "scale" in a and d.eq([a["scale"]], [kw["scale"]]), d.wh, d.lab)


def r_call(d, fn, row):
    return d.it.models.BUI[fn](d.it, d.st, None, [d.it.new_list(d.st, row)], {})


# ------------------------------------------------------------------ shapes
def outline(chk):
    """orbit outline: points of the orbit over one closed turn"""
    w = World()
    wh = w.where("get_orbit_coordinates")
    for m in (2, 3, 5):
        st = w.state()
        x = [S("a", pos=True), S("e", nonneg=True), S("i", nonneg=True), S("W"), S("w"), S("nu")]
        r = w.call("get_orbit_coordinates", [w.arr(st, x), S("mu", pos=True)], st, dict(steps=m))
        sh = w.it.models.as_nested(w.it, r, st)
        if not chk.must("the outline has one column per point", sh is not None and sh[0] == (6, m), wh, str(sh and sh[0])):
            continue
        for k in range(m):
            s = st.fork()
            want = w.elems(s, w.call("kep2sv", [w.arr(s, x[:5] + [2 * T.PI * T.const(T.Fr(k, m - 1))]), S("mu", pos=True)], s))
            for i in range(6):
                chk.eq(f"point {k} of the outline lies on the orbit", sh[1][i * m + k], want[i], wh, st.pc)
    chk.must("outlines do not fail", not w.it.raises and not w.it.unbound, wh, str(w.it.raises[:1]))
    chk.used(w.it)


def sphere(chk):
    """points of the helper surfaces lie on the sphere or ellipsoid, which they enclose"""
    for name, dims in (("get_sphere_coordinates", ["r"]), ("get_ellipsoid_coordinates", ["rx", "ry", "rz"])):
        for centre in (False, True):
            T.reset_facts()
            w = World()
            wh = w.where(name)
            st = w.state()
            R = [S(x, pos=True) for x in dims]
            c = [S(f"c{i}") for i in range(3)] if centre else [T.ZERO] * 3
            kw = {"center": w.it.new_list(st, c)} if centre else {}
            if len(dims) == 3:
                kw["n"] = 4
            r = w.it.try_iterate(w.call(name, list(R), st, kw), st)
            if not chk.must("the surface has three coordinate tables", r is not None and len(r) == 3, wh):
                continue
            xyz = [w.it.models.as_nested(w.it, v, st) for v in r]
            if not chk.must("the coordinate tables have one shape", all(v is not None and v[0] == xyz[0][0] for v in xyz), wh):
                continue
            R3 = R * 3 if len(R) == 1 else R
            for k in range(len(xyz[0][1])):
                q = [(xyz[i][1][k] - c[i]) for i in range(3)]
                lhs = sum((lift(lambda v: v * v * (R3[(i + 1) % 3] * R3[(i + 2) % 3]) ** 2, q[i]) for i in range(3)), T.ZERO)
                chk.eq("every point lies on the surface", lhs, (R3[0] * R3[1] * R3[2]) ** 2, wh, st.pc)
            for i in range(3):
                for sg in (1, -1):
                    best = any(not chk_diff(chk, xyz[i][1][k] - c[i] - sg * R3[i], st) for k in range(len(xyz[0][1])))
                    if i == 2:
                        chk.must("the surface reaches both poles", best, wh, f"coordinate {i}, side {sg}")
            chk.must("the surface does not fail", not w.it.raises and not w.it.unbound, wh, str(w.it.raises[:1]))
            chk.used(w.it)


def chk_diff(chk, v, st):
    sub = Check(chk.pid, chk.tier, chk.seed)
    return not (sub.eq("", v, T.ZERO, "", st.pc) and not sub.violations)


def ranges(chk):
    """equal axes: same half-width, centred on the data, wide enough"""
    for dim3 in (None, True, False):
        T.reset_facts()
        w = World()
        w.it.snap_calls = True
        st = w.state()
        wh = w.where("set_equal_axis")
        ax = Opq("axis", ())
        lims = [[S(f"{c}0"), S(f"{c}1")] for c in "xyz"]
        sc = S("scale", pos=True)
        kw = {"scale": sc}
        if dim3 is not None:
            kw["dim3"] = dim3
        w.call("set_equal_axis", [ax] + [w.it.new_list(st, l) for l in lims], st, kw)
        got = {}
        for pc, kind, data, mod, fn, line in st.events:
            if kind == "call" and isinstance(data[0], Opq) and data[0].name == "attr" and str(data[0].args[1]).startswith("set_"):
                got[data[0].args[1]] = data
        B = lambda f, x: w.it.models.BUI[f](w.it, st, None, [w.it.new_list(st, x)], {})
        span = [lift(lambda a, b: a - b, B("max", l), B("min", l)) for l in lims]
        half = mul(B("max", span), T.const(T.Fr(1, 2)) * sc)
        for i, c in enumerate("xyz"):
            if c == "z" and dim3 is False:
                chk.must("no limits along z are set on a flat figure", "set_zlim" not in got, wh)
                continue
            d = got.get(f"set_{c}lim")
            if not chk.must("limits are set along every axis", d is not None and len(d[1]) == 2, wh, c):
                continue
            mid = (lims[i][0] + lims[i][1]) * T.const(T.Fr(1, 2))
            chk.eq("lower limit is the middle less the scaled half-width", d[1][0], lift(lambda h: mid - h, half), wh, st.pc)
            chk.eq("upper limit is the middle plus the scaled half-width", d[1][1], lift(lambda h: mid + h, half), wh, st.pc)
        chk.must("equal axes do not fail", not w.it.raises and not w.it.unbound, wh, str(w.it.raises[:1]))
        chk.used(w.it)
