"""C02 Cartesian conversions"""
from .common import *

AX = ["x", "y", "z", "vx", "vy", "vz"]


def run(chk):
    chk.rule("value numbers of each Cartesian conversion equal those of the two-body definition on every feasible path; angles modulo 2*pi")
    chk.assumptions += ["elliptic orbits with non-zero angular momentum", "real arithmetic (rounding not modelled)"]
    w = World()
    mu = S("mu", pos=True)
    rotations(chk, w)
    to_sv(chk, w, mu)
    from_sv(chk, w, mu)
    outline(chk, w, mu)
    alone(chk, w, mu)
    chk.used(w.it)


def rotations(chk, w):
    T.reset_facts()
    x = S("phi")
    c, s, o, z = T.fcos(x), T.fsin(x), T.ONE, T.ZERO
    ref = {"rotmat1": [o, z, z, z, c, s, z, -s, c], "rotmat2": [c, z, -s, z, o, z, s, z, c], "rotmat3": [c, s, z, -s, c, z, z, z, o]}
    for name, m in ref.items():
        st = w.state()
        r = w.elems(st, w.call(name, [x], st))
        chk.count("conversions analysed")
        if not chk.must("elementary rotation is 3 by 3", len(r) == 9, w.where(name)):
            continue
        for j, (p, q) in enumerate(zip(r, m)):
            chk.eq(f"entry {j // 3},{j % 3} of the coordinate rotation", p, q, w.where(name), st.pc)


def spec(w, name, args):
    st = w.state()
    a = [w.arr(st, v) if isinstance(v, (list, tuple)) else v for v in args]
    return w.call(w.spec("elements", name), a, st), st


def to_sv(chk, w, mu):
    x = orbit_kep()
    st = w.state()
    got = w.elems(st, w.call("kep2sv", [w.arr(st, x), mu], st))
    want, s2 = spec(w, "kep2sv", [x, mu])
    wh = w.where("kep2sv")
    chk.count("conversions analysed")
    if chk.must("state has six components", len(got) == 6, wh):
        for j, (p, q) in enumerate(zip(got, w.elems(s2, want))):
            chk.eq(f"Cartesian component {AX[j]} of the two-body state", p, q, wh, st.pc)
    a, f, g, h, k, l = x = orbit_mee()
    st = w.state()
    got = w.elems(st, w.call("mee_with_a2sv", [w.arr(st, x), mu], st))
    direct, s2 = spec(w, "mee2sv", [x, mu])
    angles, s3 = spec(w, "mee_with_a2sv_via_angles", [x, mu])
    wh = w.where("mee_with_a2sv")
    chk.count("conversions analysed")
    generic = True
    for q in (f, g, h, k, f * h + g * k, g * h - f * k):
        generic = b_and(generic, b_not(eqz(q)))
    if chk.must("state has six components", len(got) == 6, wh):
        for j, (p, q, r) in enumerate(zip(got, w.elems(s2, direct), w.elems(s3, angles))):
            chk.eq_any(f"Cartesian component {AX[j]} of the two-body state, general orbit", p, [q, r], wh, b_and(st.pc, generic))
    special(chk, w, mu)


def special(chk, w, mu):
    """orbits on which a conversion has to take a separate path, each parametrised"""
    wh = w.where("mee_with_a2sv")
    z = T.ZERO
    T.reset_facts()
    a, e, t, O, L = S("a", pos=True), S("e", pos=True), S("t", pos=True), S("Omega"), S("L")
    f, g, h, k = S("f"), S("g"), S("h"), S("k")
    c, s = T.fcos(O), T.fsin(O)
    cases = {
        "circular": (z, z, h, k), "equatorial": (f, g, z, z), "circular equatorial": (z, z, z, z),
        "node on the x axis": (f, g, t, z), "node on the negative x axis": (f, g, -t, z),
        "node on the y axis": (f, g, z, t), "node on the negative y axis": (f, g, z, -t),
        "periapsis at the node": (e * c, e * s, t * c, t * s), "periapsis opposite to the node": (-e * c, -e * s, t * c, t * s),
        "periapsis 90 deg past the node": (-e * s, e * c, t * c, t * s), "periapsis 90 deg before the node": (e * s, -e * c, t * c, t * s),
        "equatorial, periapsis on the x axis": (e, z, z, z), "equatorial, periapsis on the negative x axis": (-e, z, z, z),
        "circular, node on the x axis": (z, z, t, z), "circular, node on the negative x axis": (z, z, -t, z),
        "periapsis and node on the x axis": (e, z, t, z), "periapsis and node on the negative x axis": (-e, z, -t, z),
    }
    for name, (F, Gq, H, K) in cases.items():
        T.reset_facts()
        for q in (1 - F**2 - Gq**2, 1 - T.fsqrt(F**2 + Gq**2)):
            if not q.is_const():
                T.assume_pos(q)
        x = [a, F, Gq, H, K, L]
        st = w.state()
        got = w.elems(st, w.call("mee_with_a2sv", [w.arr(st, x), mu], st))
        direct, s2 = spec(w, "mee2sv", [x, mu])
        pc = st.pc
        for pair in ((f, g), (h, k)):
            if any(v in pair for v in x):
                for v in pair:
                    pc = b_and(pc, b_not(eqz(v)))
        if name in ("node on the x axis", "node on the negative x axis", "node on the y axis", "node on the negative y axis"):
            pc = b_and(pc, b_and(b_not(eqz(f)), b_not(eqz(g))))
        for q in (c, s):
            pc = b_and(pc, b_not(eqz(q)))
        chk.count("special orbits")
        for j, (p, q) in enumerate(zip(got, w.elems(s2, direct))):
            chk.eq(f"Cartesian component {AX[j]} of the two-body state, {name}", p, q, wh, pc)


def eqz(p):
    return lift(lambda s: s == 0, G.sign_of(p))


def norm_of(w, st, v):
    e = w.elems(st, v)
    return lift(lambda *q: T.fsqrt(sum((num(z) ** 2 for z in q), T.ZERO)), *e)


def from_sv(chk, w, mu):
    T.reset_facts()
    x = [S(n) for n in AX]
    wh = w.where

    def got(name, with_mu):
        st = w.state()
        r = w.call(name, [w.arr(st, x)] + ([mu] if with_mu else []), st)
        chk.count("conversions analysed")
        return r, st

    def want(name, with_mu):
        r, _ = spec(w, name, [x] + ([mu] if with_mu else []))
        return r

    # inclination, inside the mathematical range of the cosine
    inside = in_range(want("cosine_inclination", False))
    r, st = got("get_inclination", False)
    angle_cos(chk, "inclination: cosine is h_z / |h|", r, want("cosine_inclination", False), want("inclination", False), wh("get_inclination"), b_and(st.pc, inside))
    inc = r
    r, st = got("get_raan", False)
    chk.eq("right ascension of the node", r, want("raan", False), wh("get_raan"), st.pc, angle=True)
    raan = r
    ev, st = got("get_eccentricity", True)
    evs, s2 = spec(w, "eccentricity_vector", [x, mu])
    es, ers = w.elems(st, ev), w.elems(s2, evs)
    if chk.must("eccentricity vector has three components", len(es) == 3, wh("get_eccentricity")):
        for j, (p, q) in enumerate(zip(es, ers)):
            chk.eq(f"eccentricity vector component {AX[j]}", p, q, wh("get_eccentricity"), st.pc)
    r, st = got("get_semiMajorAxis", True)
    chk.eq("semimajor axis (vis-viva)", r, want("sma", True), wh("get_semiMajorAxis"), st.pc)
    sma = r
    r, st = got("get_trueanom", True)
    chk.eq("true anomaly", r, want("true_anomaly", True), wh("get_trueanom"), st.pc, angle=True)
    ta = r
    # argument of periapsis
    ne = want("node_times_ecc", True)
    defined = lift(lambda s: s >= 0, lift(lambda q: G.sign_of(num(q) - T.const(T.Fr(1, 10**12))), ne))
    r, st = got("get_omega", True)
    ac, at, lon = want("arg_periapsis_acos", True), want("arg_periapsis", True), want("longitude_periapsis", True)
    chk.eq_any("argument of periapsis", r, [ac, at], wh("get_omega"), b_and(st.pc, defined), angle=True)
    chk.eq_any("argument of periapsis where node or apse line is undefined", r, [lon, at], wh("get_omega"), b_and(st.pc, b_not(defined)), angle=True)
    aop = r
    # period
    T.reset_facts()
    st = w.state()
    per = w.call("get_period", [w.arr(st, x), mu], st)
    chk.count("conversions analysed")
    alts = []
    for s in (sma, want("sma", True)):
        bound = lift(lambda q: lift(lambda g: g > 0, G.sign_of(num(q))), s)
        alts.append((lift(lambda q: 2 * T.PI * T.fsqrt(num(q) ** 3 / mu), s), b_and(st.pc, bound)))
    good = [a for a in alts if not differences(per, a[0], a[1])]
    ref = (good or alts)[0]
    chk.eq("period of the bound orbit", per, ref[0], wh("get_period"), ref[1])
    # full element vector: the individual functions in the documented order
    st = w.state()
    full = w.elems(st, w.call("sv2kep", [w.arr(st, x), mu], st))
    chk.count("conversions analysed")
    if chk.must("sv2kep returns six elements", len(full) == 6, wh("sv2kep")):
        n = lift(lambda *q: T.fsqrt(sum((num(z) ** 2 for z in q), T.ZERO)), *ers)
        names = ["semimajor axis", "eccentricity", "inclination", "node", "argument of periapsis", "true anomaly"]
        for j, (p, q) in enumerate(zip(full, [[sma, want("sma", True)], [n], [inc], [raan, want("raan", False)], [aop], [ta, want("true_anomaly", True)]])):
            chk.eq_any(f"sv2kep element {j} is the {names[j]}", p, q, wh("sv2kep"), b_and(st.pc, inside), angle=(j > 2))


def in_range(c):
    lo = lift(lambda q: lift(lambda g: g > 0, G.sign_of(num(q) + 1)), c)
    hi = lift(lambda q: lift(lambda g: g < 0, G.sign_of(num(q) - 1)), c)
    return b_and(lo, hi)


def angle_cos(chk, rule, got, cosine, other, where, pc):
    """got lies in [0, pi] and has the given cosine (as an inverse cosine, or equal to an equivalent form)"""
    ac = lift(lambda q: T.facos(num(q)), cosine)
    chk.eq_any(rule, got, [ac, other], where, pc)


def outline(chk, w, mu):
    x = orbit_kep()
    for steps in (2, 5):
        st = w.state()
        m = w.call("get_orbit_coordinates", [w.arr(st, x), mu, steps], st)
        got = w.elems(st, m)
        want, s2 = spec(w, "orbit", [x, mu, steps])
        want = w.elems(s2, want)
        chk.count("conversions analysed")
        wh = w.where("get_orbit_coordinates")
        if chk.must("outline has six rows and one column per step", len(got) == 6 * steps, wh):
            for j in range(steps):
                for i in range(6):
                    chk.eq(f"outline point is the state at anomaly 2 pi j/(steps-1)", got[i * steps + j], want[j * 6 + i], wh, st.pc)


def alone(chk, w, mu):
    history(chk, w, "kep2sv", [list(orbit_kep()), mu])
    history(chk, w, "mee_with_a2sv", [list(orbit_mee()), mu])
    history(chk, w, "get_orbit_coordinates", [list(orbit_kep()), mu, 3])
    T.reset_facts()
    x = [S(n) for n in AX]
    for n in ("rotmat1", "rotmat2", "rotmat3"):
        history(chk, w, n, [S("phi")])
    for n in ("get_inclination", "get_raan"):
        history(chk, w, n, [x])
    for n in ("get_eccentricity", "get_omega", "get_trueanom", "get_semiMajorAxis", "get_period", "sv2kep"):
        history(chk, w, n, [x, mu])
