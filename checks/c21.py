"""C21 assembly of the perturbing acceleration"""
from .run import *

ALIAS = {"SUN": "10", "EARTH": "399", "MOON": "301"}


def body(x):
    if isinstance(x, str):
        return ALIAS.get(x.upper(), x.upper())
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Poly) and x.const() is not None:
        return str(x.const())
    return x


def named(names):
    """positional view of a call with keywords"""
    def deco(f):
        def g(it, st, node, args, kw):
            a = list(args) + [None] * (len(names) - len(args))
            for k, v in kw.items():
                if k not in names:
                    it.raise_(st, "TypeError", f"unexpected keyword {k}", node)
                a[names.index(k)] = v
            return f(it, st, a)
        return g
    return deco


def key(st, x):
    return vkey(x)


@named(["targ", "et", "ref", "abcorr", "obs"])
def spkpos(it, st, a):
    e = position(it, st, a)
    return Tup([it.new_array(st, (3,), e), ap(it, st, "lighttime", *[K2(x) for x in a])])


@named(["targ", "et", "ref", "abcorr", "obs"])
def spkezr(it, st, a):
    e = position(it, st, a) + [ap(it, st, f"ephemeris velocity{i}") for i in range(3)]
    return Tup([it.new_array(st, (6,), e), ap(it, st, "lighttime")])


def K2(x):
    return x if not isinstance(x, str) else Opq("str", (x,))


def position(it, st, a):
    t, et, ref, ab, obs = a
    it.event(st, "spkpos", body(t), et, ref, ab, body(obs))
    return [ap(it, st, f"ephemeris{i}", K2(body(t)), et, K2(str(ref).upper() if isinstance(ref, str) else ref), K2(ab), K2(body(obs))) for i in range(3)]


@named(["bodynm", "item", "maxn"])
def bodvrd(it, st, a):
    v = ap(it, st, "constant", K2(body(a[0])), K2(a[1]))
    T.atom_of(num(v)).pos = True
    n = num(a[2]).const()
    return Tup([n, it.new_array(st, (1,), [v])])


@named(["fromstr", "tostr", "tout"])
def pxform(it, st, a):
    return it.new_array(st, (3, 3), [ap(it, st, f"rotation{i}{j}", K2(a[0]), K2(a[1]), a[2]) for i in range(3) for j in range(3)])


@named(["x", "inunit", "outunit"])
def convrt(it, st, a):
    u = lambda n: T.sym(f"unit {n.upper()}", pos=True)
    return lift(lambda x: num(x) * u(a[1]) / u(a[2]), a[0])


def conversion(name):
    def f(it, st, args, kw):
        a = list(args) + list(kw.values())
        it.event(st, "conversion", [snap(it, st, x) for x in a], name)
        return it.new_array(st, (6,), [ap(it, st, f"{name}.{i}", *a) for i in range(6)])
    return f


SPICE = {"spiceypy.spkpos": spkpos, "spiceypy.spkezr": spkezr, "spiceypy.bodvrd": bodvrd, "spiceypy.bodvcd": bodvrd, "spiceypy.pxform": pxform, "spiceypy.convrt": convrt}
EFFECTS = {"perturbation_third_body_battin": (3,), "perturbation_J2": (3,), "perturbation_SRP": (3,), "pxformECI2RTN": (3, 3)}
CONV = {"keplerian": "kep2sv", "mee_with_a": "mee_with_a2sv"}


def effect(name):
    """effect function as an uninterpreted function of its arguments (decided by C20)"""
    def f(it, st, args, kw):
        fn = find(it, name)
        pos = [p.arg for p in fn.node.args.args]
        v = dict(zip(pos, args))
        v.update(kw)
        if set(v) != set(pos):
            it.raise_(st, "TypeError", f"arguments of {name}", None)
        a = [v[p] for p in pos]
        it.event(st, "effect", name)
        n = 1
        for d in EFFECTS[name]:
            n *= d
        return it.new_array(st, EFFECTS[name], [ap(it, st, f"{name}.{i}", *a) for i in range(n)])
    return f


def run(chk):
    chk.rule("for every combination of enabled effects and both element sets, the value number of the returned vector equals frame(r, v) applied to the sum of the package's own effect functions at the required arguments (ephemeris of each body at et_ref + t TU relative to the central body, lengths divided by LU, GMs by LU^3/TU^2, radiation pressure acceleration in LU/TU^2); ephemeris, constants and conversions are uninterpreted; in a run the model is called with time, state and element set of the step")
    chk.assumptions += ["SPICE calls are pure functions of their arguments; body names SUN, EARTH, MOON denote 10, 399, 301", "the effect functions themselves are decided by C20"]
    w = world(())
    inlined = calls(w)
    chk.count("effects analysed in place", len(inlined))
    if inlined:
        w = world(inlined)
    bodies = ["301", "10"]
    for el in CONV:
        for flags in ((True, True), (True, False), (False, True), (False, False)):
            assembled(chk, w, el, bodies, "given", *flags)
        for nb, gms, fl in (([], "given", (True, True)), (None, None, (True, True)), (["5"], "given", (False, False)), (bodies, None, (False, True)), (["5", "6", "7"], "looked up", (True, True)), ("default", None, (True, True))):
            assembled(chk, w, el, nb, gms, *fl)
    defaults(chk, w)
    refused(chk, w)
    chk.used(w.it)
    for kw in [dict(eta="zero", duty=False, batt=False), dict(elements="keplerian", integrator="rkf45", eta="zero", batt=False), dict(ptrb=False, eta="zero", duty=False, batt=False)]:
        step(chk, kw)
    chk.floor("assemblies", 16)
    chk.floor("steps", 2)


def calls(w):
    """effect functions that are not called with everything enabled (their formula is written in place)"""
    st = w.state()
    p, *_ = make(w, st, ["5"], "given", True, True)
    w.call(w.it.getattr(p, "get_perturbations_RTN", st), [S("t"), w.arr(st, [S(f"x{i}") for i in range(6)]), "mee_with_a"], st)
    return [n for n in EFFECTS if not any(e[1] == "effect" and e[2][0] == n for e in st.events)]


def world(inlined):
    op = {"pyqlaw._elements." + n: conversion(n) for n in CONV.values()}
    op.update({"pyqlaw._perturbations." + n: effect(n) for n in EFFECTS if n not in inlined})
    w = World(op)
    w.it.ext.update(SPICE)
    for n in list(CONV.values()) + list(EFFECTS):
        find(w.it, n)
    return w


def make(w, st, names, gms, J, P, user=True):
    it = w.it
    kw = dict(et_ref=S("et0"), LU=S("LU", pos=True), TU=S("TU", pos=True))
    if user:
        kw.update(obs_id="499", frame_qlaw="ECLIPJ2000", frame_PA="IAU_MARS", J2=S("J2"), Re_km=S("Re", pos=True), P_SRP_SI=S("P"), Cr_SRP=S("Cr"), Am_SI=S("Am"))
    given = None
    if names != "default":
        kw["third_bodies_names"] = None if names is None else it.new_list(st, list(names))
    else:
        names = ["301", "10"]
    if gms == "given":
        given = [S(f"gm{i}", pos=True) for i in range(len(names))]
        kw["third_bodies_gms"] = it.new_list(st, list(given))
    kw.update(use_J2=J, use_SRP=P)
    p = it.call(find(it, "SpicePerturbations"), [], kw, st)
    LU, TU = kw["LU"], kw["TU"]
    if given is None:
        given = [num(ap(it, st, "constant", K2(b), K2("GM"))) * TU**2 / LU**3 for b in names or []]
    return p, kw, list(names or []), given


def expected(w, st, kw, names, gms, J, P, t, oe, el):
    it = w.it
    g = lambda k, d: kw.get(k, d)
    LU, TU = kw["LU"], kw["TU"]
    obs, fr, pa = g("obs_id", "399"), g("frame_qlaw", "J2000"), g("frame_PA", "ITRF93")
    km = T.const(1000)
    mu = num(ap(it, st, "constant", K2(body(obs)), K2("GM"))) * TU**2 / LU**3
    rv = w.elems(st, w.call(CONV[el], [oe, mu], st))
    r, v = w.arr(st, rv[:3]), w.arr(st, rv[3:])
    et = kw["et_ref"] + t * TU
    pos = lambda b: [num(ap(it, st, f"ephemeris{i}", K2(b), et, K2(fr), K2("NONE"), K2(obs))) / LU for i in range(3)]
    acc = [T.ZERO] * 3

    def add(x):
        for i, y in enumerate(w.elems(st, x)):
            acc[i] = it.binop("Add", acc[i], y, st)
    for b, gm in zip(names, gms):
        add(w.call("perturbation_third_body_battin", [r, w.arr(st, pos(b)), gm], st))
    if J:
        M = it.new_array(st, (3, 3), [ap(it, st, f"rotation{i}{j}", K2(fr), K2(pa), et) for i in range(3) for j in range(3)])
        add(w.call("perturbation_J2", [r, M, mu, g("J2", lit("0.00108263")), num(g("Re_km", T.const(6378))) / LU], st))
    if P:
        k = num(g("P_SRP_SI", lit("4.56e-6"))) * num(g("Cr_SRP", lit("1.2"))) * num(g("Am_SI", lit("0.01"))) / km * TU**2 / LU
        d = w.arr(st, [num(a) - b for a, b in zip(rv[:3], pos("10"))])
        au = T.sym("unit AU", pos=True) / T.sym("unit KM", pos=True) / LU
        add(w.call("perturbation_SRP", [d, au, k], st))
    R = w.elems(st, w.call("pxformECI2RTN", [r, v], st))
    return [sum((num(R[3*i + j]) * num(acc[j]) for j in range(3)), T.ZERO) for i in range(3)]


def lit(x):
    from sa.interp import lit_float
    return num(lit_float(float(x)))


def assembled(chk, w, el, names, gms, J, P):
    T.reset_facts()
    st = w.state()
    wh = where(w)
    w.it.unbound.clear()
    p, kw, nb, gm = make(w, st, names, gms, J, P)
    t, x = S("t"), [S(f"x{i}") for i in range(6)]
    oe = w.arr(st, x)
    label = f"{el}, third bodies {', '.join(nb) or 'none'} with GMs {'given' if gms == 'given' else 'looked up'}, J2 {'on' if J else 'off'}, radiation pressure {'on' if P else 'off'}"
    chk.count("assemblies")
    before = dict(st.heap[p.loc].attrs)
    t0, oe0 = S("t0"), w.arr(st, [S(f"y{i}") for i in range(6)])
    points = [(t0, oe0), (t, oe), (t0, oe0)]
    got = [w.elems(st, w.call(w.it.getattr(p, "get_perturbations_RTN", st), [a, b, el], st)) for a, b in points]
    chk.must("no valid selection of effects is refused or fails", not w.it.raises and not w.it.unbound, wh, f"{label}: {w.it.raises[:1]} {w.it.unbound[:1]}")
    if not chk.must("the perturbation has three components", len(got[0]) == 3, wh, label):
        return
    for n, g in enumerate(got):
        want = expected(w, st, kw, nb, gm, J, P, *points[n], el)
        for i in range(3):
            chk.eq(f"the perturbation is the sum of the enabled effects in the frame of the state ({label}{', evaluated after another state and time' if n else ''}; component {i})", g[i], want[i], wh, st.pc)
    chk.must("the state is left as it is", [vkey(v) for v in w.elems(st, oe)] == [vkey(v) for v in x], wh, label)


def where(w):
    c = find(w.it, "SpicePerturbations")
    f = c.lookup("get_perturbations_RTN")
    return f"{c.mod.replace('.', '/')}.py: {c.name}.{getattr(f, 'name', 'get_perturbations_RTN')} (line {f.node.lineno if hasattr(f, 'node') else '?'})"


def defaults(chk, w):
    """nothing given but epoch and units: Earth, Moon and Sun with their documented constants"""
    T.reset_facts()
    st = w.state()
    it = w.it
    kw = dict(et_ref=S("et0"), LU=S("LU", pos=True), TU=S("TU", pos=True))
    p = it.call(find(it, "SpicePerturbations"), [], dict(kw), st)
    t, oe = S("t"), w.arr(st, [S(f"x{i}") for i in range(6)])
    got = w.elems(st, w.call(it.getattr(p, "get_perturbations_RTN", st), [t, oe, "mee_with_a"], st))
    gm = [num(ap(it, st, "constant", K2(b), K2("GM"))) * kw["TU"]**2 / kw["LU"]**3 for b in ("301", "10")]
    want = expected(w, st, kw, ["301", "10"], gm, True, True, t, oe, "mee_with_a")
    chk.count("assemblies")
    for i in range(3):
        chk.eq(f"omitted settings take their documented values (component {i})", got[i], want[i], where(w), st.pc)


def refused(chk, w):
    T.reset_facts()
    st = w.state()
    p, *_ = make(w, st, ["5"], "given", True, True)
    w.it.raises.clear()
    try:
        w.call(w.it.getattr(p, "get_perturbations_RTN", st), [S("t"), w.arr(st, [S(f"x{i}") for i in range(6)]), "equinoctial"], st)
    except Exception as e:
        if type(e).__name__ != "Dead":
            raise
    chk.must("an unknown element set is refused", bool(w.it.raises), where(w), "no exception on any path")
    w.it.raises.clear()


def step(chk, kw):
    r = Run(hook=False, **kw)
    chk.used(r.it)
    for k, s in r.ends():
        pts = r.events(s, "ptrb")
        ints = r.events(s, "integ")
        chk.count("steps")
        if not r.cfg["perturbations"]:
            for e in ints:
                for i in range(3):
                    chk.eq("without a perturbation model nothing perturbs the step", e.args[3][5][i], T.ZERO, e.where(), b_and(e.pc, s.pc))
            continue
        if not chk.must("the perturbation model is evaluated in every step", bool(pts), r.where, r.name()):
            continue
        chk.holds("the perturbation model is evaluated in every step", r.cover(pts), r.where, s.pc)
        x0 = r.prev(s, "states")
        if r.elements == "keplerian":
            x0 = r.clean(s, x0)
        for e in pts:
            pc = b_and(e.pc, s.pc)
            chk.eq("perturbations are evaluated at the time of the step", e.args[0], r.prev(s, "times"), e.where(), pc)
            for j in range(6):
                chk.eq("perturbations are evaluated at the state of the step", e.args[1][j], x0[j], e.where(), pc)
            for n, v in e.data[2].items():
                chk.must("the user's perturbation model is evaluated as it was set up", v is not None and vkey(v) == vkey(S("model's " + n)), e.where(), f"{n} is {str(v)[:100]}")
            chk.must("perturbations are told the element set", e.args[2] == r.elements, e.where(), str(e.args[2]))
        for e in ints:
            for i in range(3):
                chk.eq("the perturbation of the step is applied", e.args[3][5][i], r.value(s, pts, lambda q: q.res[i]), e.where(), b_and(e.pc, s.pc))
