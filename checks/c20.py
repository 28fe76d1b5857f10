"""C20 perturbing accelerations and the radial-transverse-normal frame"""
from .common import *


def vec(p):
    return [S(p + c) for c in "xyz"]


def run(chk):
    chk.rule("value numbers of the accelerations equal the closed-form expressions for every position: third body mu3 (d/|d|^3 - s/|s|^3), negative gradient of the J2 potential rotated to and from the principal axes (rotation given by three arbitrary angles), k AU^2 d/|d|^3; frame rows equal r/|r|, n x r and n")
    chk.assumptions += ["real arithmetic", "spacecraft, third body, Sun and centre do not coincide; position and velocity are not parallel"]
    w = World()
    third(chk, w)
    j2(chk, w)
    srp(chk, w)
    frame(chk, w)
    chk.used(w.it)


def same(chk, w, st, name, args, want, what, pc=True):
    content = lambda: [vkey(x) for a in args if isinstance(a, ArrRef) for x in w.elems(st, a)]
    before = content()
    got = w.elems(st, w.call(name, args, st))
    wh = w.where(name)
    chk.count("accelerations")
    if not chk.must(f"{what}: three components", len(got) == len(want), wh, str(len(got))):
        return
    for i, (g, e) in enumerate(zip(got, want)):
        chk.eq(f"{what} (component {i})", g, e, wh, st.pc)
    chk.must(f"{what}: the given vectors are left as they are", before == content(), wh)


def third(chk, w):
    T.reset_facts()
    st = w.state()
    r, s, gm = vec("r"), vec("s"), S("gm", pos=True)
    d2 = sum(((a - b)**2 for a, b in zip(r, s)), T.ZERO)
    T.assume_pos(d2)
    T.assume_pos(s[0]**2 + s[1]**2 + s[2]**2)
    want = w.elems(st, w.call(w.spec("perturb", "third_body"), [w.arr(st, r), w.arr(st, s), gm], st))
    same(chk, w, st, "perturbation_third_body_battin", [w.arr(st, r), w.arr(st, s), gm], want, "third-body acceleration is the difference of the attractions")


def rotation(al, be, ga):
    c, s = T.fcos, T.fsin
    m = lambda a, b: [[sum((a[i][k] * b[k][j] for k in range(3)), T.ZERO) for j in range(3)] for i in range(3)]
    Z = lambda t: [[c(t), s(t), T.ZERO], [-s(t), c(t), T.ZERO], [T.ZERO, T.ZERO, T.ONE]]
    X = [[T.ONE, T.ZERO, T.ZERO], [T.ZERO, c(be), s(be)], [T.ZERO, -s(be), c(be)]]
    return m(m(Z(ga), X), Z(al))


def j2(chk, w):
    for label, M in (("aligned axes", [[T.const(int(i == j)) for j in range(3)] for i in range(3)]), ("any orientation of the axes", rotation(S("alpha"), S("beta"), S("gamma")))):
        T.reset_facts()
        st = w.state()
        r, mu, J, R = vec("r"), S("mu", pos=True), S("J2"), S("Re", pos=True)
        T.assume_pos(r[0]**2 + r[1]**2 + r[2]**2)
        b = vec("b")
        T.assume_pos(b[0]**2 + b[1]**2 + b[2]**2)
        U = w.call(w.spec("perturb", "j2_potential"), b + [mu, J, R], st)
        g = [-deriv(U, x) for x in b]
        rb = [sum((M[i][k] * r[k] for k in range(3)), T.ZERO) for i in range(3)]
        rho = T.fsqrt(r[0]**2 + r[1]**2 + r[2]**2)
        # |M r| = |r|: the gradient is taken with the norm of the position
        n = T.fsqrt(b[0]**2 + b[1]**2 + b[2]**2)
        na = T.sym("norm", pos=True)
        mp = {T.atom_of(x).id: y for x, y in zip(b, rb)}
        gm = [T.subst(rename(x, n, na), {**mp, T.atom_of(na).id: rho}) for x in g]
        want = [sum((M[k][i] * gm[k] for k in range(3)), T.ZERO) for i in range(3)]
        arrM = w.it.new_array(st, (3, 3), [x for row in M for x in row])
        same(chk, w, st, "perturbation_J2", [w.arr(st, r), arrM, mu, J, R], want, f"J2 acceleration is the negative gradient of the potential, {label}")


def deriv(p, x):
    """partial derivative of a polynomial in symbols and powers of sums"""
    at = T.atom_of(x)
    out = T.ZERO
    for m, c in p.terms.items():
        for i, e in m:
            a = T._atoms[i]
            d = T.ONE if a is at else deriv(a.poly, x) if a.kind == "sum" else T.ZERO
            if d is not T.ZERO:
                out = out + T.make({m: c}) * T.atom_poly(a, -1) * d * T.const(e)
    return out


def rename(p, n, na):
    """write the powers of the radius in p with the symbol na"""
    return T.subst(p, {T.sum_atom(n * n).id: na * na})


def srp(chk, w):
    T.reset_facts()
    st = w.state()
    d, AU, k = vec("d"), S("AU", pos=True), S("k")
    T.assume_pos(d[0]**2 + d[1]**2 + d[2]**2)
    want = w.elems(st, w.call(w.spec("perturb", "srp"), [w.arr(st, d), AU, k], st))
    same(chk, w, st, "perturbation_SRP", [w.arr(st, d), AU, k], want, "radiation pressure pushes away from the Sun with the inverse square of the distance")


def frame(chk, w):
    T.reset_facts()
    st = w.state()
    r, v = vec("r"), vec("v")
    T.assume_pos(r[0]**2 + r[1]**2 + r[2]**2)
    h = [r[1]*v[2] - r[2]*v[1], r[2]*v[0] - r[0]*v[2], r[0]*v[1] - r[1]*v[0]]
    T.assume_pos(h[0]**2 + h[1]**2 + h[2]**2)
    want = [x for row in w.it.iterate(w.call(w.spec("perturb", "frame"), [w.arr(st, r), w.arr(st, v)], st), st) for x in w.elems(st, row)]
    same(chk, w, st, "pxformECI2RTN", [w.arr(st, r), w.arr(st, v)], want, "rows of the frame are the radial, transverse and normal unit vectors")
