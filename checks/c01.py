"""C01 element-set conversions"""
from .common import *


def run(chk):
    chk.rule("value numbers of each conversion's result equal those of the textbook definition (or satisfy its defining equations) on every feasible path; angles modulo 2*pi")
    chk.assumptions += ["elliptic orbits: 0 < e < 1, a > 0, inclination in [0, pi)", "real arithmetic (rounding not modelled)"]
    w = World()
    kep_to(chk, w)
    mee_sma(chk, w)
    to_kep(chk, w)
    anomalies(chk, w)
    composed(chk, w)
    alone(chk, w)
    chk.used(w.it)


def get(w, name, xs, chk, n=6, extra=()):
    st = w.state()
    arg = w.arr(st, xs)
    r = w.elems(st, w.call(name, [arg] + list(extra), st))
    chk.count("conversions analysed")
    if len(r) != n:
        chk.violate(w.where(name), "conversion returns a full element vector", f"{len(r)} components instead of {n}")
        return None
    chk.must("conversion defined for every elliptic orbit", not w.it.raises, w.where(name), str(w.it.raises[:1]))
    return st, r


NAMES = {"kep2mee": ["p", "f", "g", "h", "k", "L"], "kep2mee_with_a": ["a", "f", "g", "h", "k", "L"]}


def kep_to(chk, w):
    for name in ("kep2mee", "kep2mee_with_a"):
        x = orbit_kep()
        sp = w.spec("elements", name)
        got = get(w, name, x, chk)
        if got is None:
            continue
        st2 = w.state()
        want = w.elems(st2, w.call(sp, [w.arr(st2, x)], st2))
        for j, (g, v) in enumerate(zip(got[1], want)):
            chk.eq(f"component {NAMES[name][j]} is its definition", g, v, w.where(name), got[0].pc, angle=(j == 5))


def mee_sma(chk, w):
    a, f, g, h, k, l = orbit_mee()
    got = get(w, "mee_with_a2mee", [a, f, g, h, k, l], chk)
    if got:
        for j, v in enumerate([a * (1 - f**2 - g**2), f, g, h, k, l]):
            chk.eq("MEE of MEE-with-SMA", got[1][j], v, w.where("mee_with_a2mee"), got[0].pc, angle=(j == 5))
    p = S("p", pos=True)
    got = get(w, "mee2mee_with_a", [p, f, g, h, k, l], chk)
    if got:
        for j, v in enumerate([p / (1 - f**2 - g**2), f, g, h, k, l]):
            chk.eq("MEE-with-SMA of MEE", got[1][j], v, w.where("mee2mee_with_a"), got[0].pc, angle=(j == 5))


def kep_defining(chk, w, name, got, a, f, g, h, k, l):
    """the Keplerian vector `got` describes the orbit (a,f,g,h,k,L)"""
    st, (A, e, i, O, o, th) = got
    wh = w.where(name)
    s2 = h**2 + k**2
    chk.eq("semimajor axis", A, a, wh, st.pc)
    chk.eq("eccentricity is the length of (f, g)", e, T.fsqrt(f**2 + g**2), wh, st.pc)
    chk.eq("inclination: tan(i/2) is the length of (h, k)", i, 2 * T.fatan(T.fsqrt(s2)), wh, st.pc, angle=True)
    lp = lift(lambda x, y: num(x) + num(y), O, o)
    # node direction (undefined only for h = k = 0)
    nz = b_not(b_and(eqz(h), eqz(k)))
    s = T.fsqrt(s2)
    chk.eq("node: cos", lift(lambda x: T.fcos(num(x)) * s, O), h, wh, b_and(st.pc, nz))
    chk.eq("node: sin", lift(lambda x: T.fsin(num(x)) * s, O), k, wh, b_and(st.pc, nz))
    chk.eq("apse line: f = e cos(node + periapsis)", lift(lambda x, y: num(y) * T.fcos(x), lp, e), f, wh, st.pc)
    chk.eq("apse line: g = e sin(node + periapsis)", lift(lambda x, y: num(y) * T.fsin(x), lp, e), g, wh, st.pc)
    chk.eq("position: L = node + periapsis + anomaly", lift(lambda x, y: x + num(y), lp, th), l, wh, st.pc, angle=True)


def eqz(p):
    return lift(lambda s: s == 0, G.sign_of(p))


def to_kep(chk, w):
    for first in ("mee_with_a2kep", "mee2kep"):
        a, f, g, h, k, l = orbit_mee()
        got = get(w, first, [a, f, g, h, k, l], chk)
        if got:
            sma = a if first == "mee_with_a2kep" else a / (1 - f**2 - g**2)
            kep_defining(chk, w, first, got, sma, f, g, h, k, l)


def anomalies(chk, w):
    e, th = S("e", pos=True), S("theta")
    T.reset_facts()
    T.assume_pos(1 - e)
    T.assume_pos(1 + e * T.fcos(th))
    st = w.state()
    E = w.call("ta2ea", [th, e], st)
    chk.count("conversions analysed")
    half_angle(chk, w, "ta2ea", E, th, e, st)
    a, f, g, h, k, l = orbit_mee()
    ecc = T.fsqrt(f**2 + g**2)
    st = w.state()
    E = w.call("mee2ea", [w.arr(st, [a, f, g, h, k, l])], st)
    chk.count("conversions analysed")
    ref = w.call("ta2ea", [l - T.fatan2(g, f), ecc], st)
    half_angle(chk, w, "mee2ea", E, l - T.fatan2(g, f), ecc, st, [ref])


def half_angle(chk, w, name, E, th, e, st, more=()):
    """E is the eccentric anomaly of the true anomaly th: (cos E, sin E) follow from the ellipse"""
    wh = w.where(name)
    t = T.ftan(th * T.const(T.Fr(1, 2)))
    want = 2 * T.fatan(T.fsqrt((1 - e) / (1 + e)) * t)
    c, s, b = T.fcos(th), T.fsin(th), T.fsqrt(1 - e**2)
    h = th * T.const(T.Fr(1, 2))
    direct = T.fatan2(b * s, e + c)
    half = 2 * T.fatan2(T.fsqrt(1 - e) * T.fsin(h), T.fsqrt(1 + e) * T.fcos(h))
    scaled = T.fatan2(b * s / (1 + e * c), (e + c) / (1 + e * c))
    chk.eq_any("eccentric anomaly of the true anomaly", E, [want, direct, half, scaled] + list(more), wh, st.pc, angle=True)


def composed(chk, w):
    """there-and-back conversions of Keplerian elements"""
    x = orbit_kep()
    for fwd, back in (("kep2mee", "mee2kep"), ("kep2mee_with_a", "mee_with_a2kep")):
        st = w.state()
        m = w.call(fwd, [w.arr(st, x)], st)
        r = w.elems(st, w.call(back, [m], st))
        wh = w.where(back)
        chk.count("conversions analysed")
        chk.eq(f"{fwd} then {back} returns the semimajor axis", r[0], x[0], wh, st.pc)
        chk.eq(f"{fwd} then {back} returns the eccentricity", r[1], x[1], wh, st.pc)
        chk.eq(f"{fwd} then {back} returns the mean longitude of the position",
               lift(lambda *q: sum((num(z) for z in q), T.ZERO), r[3], r[4], r[5]), x[3] + x[4] + x[5], wh, st.pc, angle=True)


def alone(chk, w):
    for n in ("kep2mee", "kep2mee_with_a"):
        history(chk, w, n, [list(orbit_kep())])
    for n in ("mee2kep", "mee_with_a2kep", "mee_with_a2mee", "mee2ea"):
        history(chk, w, n, [list(orbit_mee())])
    x = list(orbit_mee())
    history(chk, w, "mee2mee_with_a", [[S("p", pos=True)] + x[1:]])
    T.reset_facts()
    e = S("e", pos=True)
    T.assume_pos(1 - e)
    history(chk, w, "ta2ea", [S("theta"), e])
