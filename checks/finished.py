"""A problem object with recorded histories, and models of the drawing and interpolation libraries."""
from .run import *
from sa.interp import Ext, EnvC, Dead

NAMES = {"keplerian": ["a", "e", "i", "raan", "omega", "ta"], "mee_with_a": ["a", "f", "g", "h", "k", "L"]}
DRAW = ("plot", "step", "scatter", "plot3D", "scatter3D", "plot_wireframe", "fill_between", "axhline", "hlines", "semilogy", "semilogx", "loglog", "errorbar")


def opaque_sv(name):
    def f(it, st, args, kw):
        a = list(args) + list(kw.values())
        r = [ap(it, st, f"{name}{i}", *a) for i in range(6)]
        it.event(st, "sv", [snap(it, st, x) for x in a], r, name)
        return it.new_array(st, (6,), r)
    return f


def opaque_outline(it, st, args, kw):
    f = find(it, "get_orbit_coordinates")
    pos = [p.arg for p in f.node.args.args]
    v = dict(zip(pos, args))
    v.update(kw)
    a = [v[n] for n in pos if n in v]
    try:                                # the anomaly of the given elements is of no account (shown by C02 and C30), nor is a fine enough grid
        x = it.iterate(a[0], st)
        if len(x) == 6:
            a[0] = it.new_array(st, (5,), x[:5])
        if len(a) == 3 and isinstance(num(a[2]), Poly) and num(a[2]).is_const() and num(a[2]).const() >= 20:
            a = a[:2]
    except Unsupported:
        pass
    n = 4
    return it.new_array(st, (6, n), [ap(it, st, f"outline{i}", *a) for i in range(6 * n)])


class Axis:
    """drawing area: every method call is recorded with the content of its arguments"""

    def __init__(self, uid):
        self.uid = uid
        self._k = ("axis", uid)


def axis(uid):
    return Opq("drawing area", (uid,))


def m_subplots(it, st, node, args, kw):
    n = it.as_index(args[0]) if args else it.as_index(kw.get("nrows", 1))
    m = it.as_index(args[1]) if len(args) > 1 else it.as_index(kw.get("ncols", 1))
    fig = Opq("figure", ("subplots",))
    it.event(st, "figure", n, m)
    if n == m == 1 and kw.get("squeeze", True) is not False:
        return Tup([fig, axis("0")])
    ax = [axis(f"{i}") for i in range(n * m)]
    sh = (n, m) if n > 1 and m > 1 else (n * m,)
    return Tup([fig, it.new_array(st, sh, ax)])


def m_interp1d(it, st, node, args, kw):
    x, y = args[0], args[1]
    kind = args[2] if len(args) > 2 else kw.get("kind", "linear")
    other = {k: v for k, v in kw.items() if k not in ("kind", "axis")}
    sh, ys = it.models.as_nested(it, y, st) or (None, None)
    shx, xs = it.models.as_nested(it, x, st) or (None, None)
    if ys is None or xs is None:
        raise Unsupported("interp1d of unknown data")
    it.event(st, "interp", list(xs), list(ys), kind, dict(other))
    if len(sh) == 1:
        rows = [ys]
    else:
        axis_ = it.as_index(kw.get("axis", -1)) % 2
        rows = [ys[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])] if axis_ == 1 else [ys[j::sh[1]] for j in range(sh[1])]
    for r in rows:
        if len(r) != len(xs):
            it.raise_(st, "ValueError", "x and y arrays must be equal in length along interpolation axis", node)
    if other:
        extra = tuple((k, vkey(v)) for k, v in sorted(other.items()) if k not in ("copy", "assume_sorted", "bounds_error"))
    else:
        extra = ()

    def at(it2, st2, a, k):
        t = a[0]
        tn = it2.models.as_nested(it2, t, st2)
        if tn is not None and tn[0] != ():
            vals = [interp(it2, st2, xs, r, kind, extra, q) for r in rows for q in tn[1]]
            return it2.new_array(st2, (len(rows), len(tn[1])) if len(sh) == 2 else (len(tn[1]),), vals)
        vals = [interp(it2, st2, xs, r, kind, extra, t) for r in rows]
        return vals[0] if len(sh) == 1 else it2.new_array(st2, (len(vals),), vals)
    return OpaqueFn("interpolant", at)


def interp(it, st, xs, ys, kind, extra, t):
    it.event(st, "interpolated at", t)
    return T.app("interp", extra=(str(kind), extra, tuple(deep(it, st, q) for q in xs), tuple(deep(it, st, q) for q in ys), deep(it, st, t)))


EXTS = {"matplotlib.pyplot.subplots": m_subplots, "scipy.interpolate.interp1d": m_interp1d}


class Finished:
    """problem with a recorded run of n steps"""

    def __init__(self, elements="mee_with_a", integrator="rk4", n=3, inline=(), times=None, verbosity=0, array0=True, target=5, start=None):
        T.reset_facts()
        op = {}
        for k, (g, e, c) in P.items():
            op["pyqlaw._symbolic." + g] = law_model(k)
            op["pyqlaw._convergence." + c] = conv_model(k)
        for q in ("kep2sv", "mee_with_a2sv"):
            if q not in inline:
                op["pyqlaw._elements." + q] = opaque_sv(q)
        if "outline" not in inline:
            op["pyqlaw._elements.get_orbit_coordinates"] = opaque_outline
        self.w = w = World(op)
        self.it = it = w.it
        for k in op:
            find(it, k.rsplit(".", 1)[1])
        it.ext.update(EXTS)
        it.snap_calls = True
        self.st = st = w.state()
        self.elements, self.n = elements, n
        arr = lambda m, p: it.new_array(st, (m,), [S(f"{p}{i}") for i in range(m)])
        self.kw = dict(mu=S("mu", pos=True), elements_type=elements, integrator=integrator, verbosity=verbosity,
                       tol_oe=it.new_list(st, [S(f"tol{i}", pos=True) for i in range(5)]))
        self.q = q = it.call(find(it, "QLaw"), [], dict(self.kw), st)
        self.oe0, self.oeT = arr(6, "x0_"), arr(target, "xT_")
        it.call(it.getattr(q, "set_problem", st), [], dict(oe0=self.oe0, oeT=self.oeT, mass0=S("m0_", pos=True), tmax=S("tmax", pos=True), mdot=S("mdot", pos=True), tf_max=S("tf"), t_step=S("h"),
                woe=it.new_list(st, [S(f"w{i}", nonneg=True) for i in range(5)]),
                battery_initial=S("bat0"), battery_capacity=Tup([S("blo"), S("bhi")]), battery_charge_discharge_rate=Tup([S("rc"), S("rd")])), st)
        N = n + 1
        self.times = [T.ZERO] + [S(f"t{i}") for i in range(1, N)] if times is None else list(times)
        self.states = [[S(f"x{i}_{j}") for j in range(6)] for i in range(N)]
        self.masses = [S(f"m{i}_", pos=True) for i in range(N)]
        self.battery = [S(f"bat{i}") for i in range(N)]
        self.controls = [[S(f"al{i}"), S(f"be{i}"), S(f"thr{i}")] for i in range(n)]
        self.etas = [[S(f"ea{i}"), S(f"er{i}")] for i in range(n)]
        self.bounds = [[S(f"ba{i}"), S(f"br{i}")] for i in range(n)]
        self.Qs, self.dQ = [S(f"Q{i}") for i in range(n)], [S(f"dQ{i}") for i in range(n)]
        L = lambda x: it.new_list(st, x)
        self.states[0] = [S(f"x0_{j}") for j in range(6)]
        objs = dict(times=L(self.times), states=L([self.oe0] + [it.new_array(st, (6,), x) for x in self.states[1:]]), masses=L(self.masses), battery=L(self.battery),
                    controls=L([L(c) for c in self.controls]), etas=L([L(c) for c in self.etas]), etas_bounds=L([L(c) for c in self.bounds]), Qs=L(self.Qs), dQdts=L(self.dQ))
        for k, v in objs.items():
            it.setattr(q, k, v, st)
        it.setattr(q, "converge", True, st)
        it.setattr(q, "exitcode", 1, st)
        it.raises.clear()
        it.unbound.clear()
        it.mutations.clear()
        self.n0 = len(st.events)
        it.long = frozenset((n, N)) if n >= 1 else frozenset()

    def call(self, name, st, *args, **kw):
        return self.it.call(self.it.getattr(self.q, name, st), list(args), kw, st)

    def attr(self, name, st=None):
        return self.it.getattr(self.q, name, st or self.st)

    def kepT(self):
        """target as the library converts it"""
        return self.kep(list(self.it.models.as_nested(self.it, self.oeT, self.st)[1][:5]) + [T.ZERO])

    def kep(self, x):
        s = self.st.fork()
        return list(self.w.elems(s, self.w.call("mee_with_a2kep", [self.w.arr(s, x)], s)))

    def sv(self, st, x):
        """what the conversion of this element set gives for these elements"""
        f = "kep2sv" if self.elements == "keplerian" else "mee_with_a2sv"
        s = st.fork()
        return list(self.w.elems(s, self.w.call(f, [self.w.arr(s, x), S("mu", pos=True)], s)))

    def where(self, name):
        v = self.attr(name)
        f = getattr(v, "func", v)
        n = getattr(f, "node", None)
        return f"{getattr(f, 'mod', 'pyqlaw').replace('.', '/')}.py: {getattr(f, 'name', name)} (line {getattr(n, 'lineno', '?')})"

    def drawn(self, st):
        """[(drawing area, method, [argument contents], kwargs, condition, where)]"""
        out = []
        for e in st.events[self.n0:]:
            pc, kind, data, mod, fn, line = e
            if kind != "call" or not isinstance(data[0], Opq) or data[0].name != "attr":
                continue
            o, m = data[0].args
            if isinstance(o, Opq) and len(data) > 3 and m in DRAW:
                out.append((o, m, data[3][0], data[3][1], pc, f"{mod.replace('.', '/')}.py: {fn} (line {line})"))
        return out


def reportable(it, r, allowed=()):
    """exceptions and undefined values met, as text"""
    out = [f"{x[1]}: {str(x[5])[:160]} at {x[2]}.{x[3]} line {x[4]}" for x in it.raises]
    return out + [f"undefined {u}" for u in it.unbound]
