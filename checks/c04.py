"""C04 Gauss's variational equations"""
from .common import *
from .law import SETS, Law, orbit

COMP = ["radial", "transverse", "normal"]


def run(chk):
    chk.rule("value numbers of every element rate equal Gauss's variational equations, with the law's sensitivities substituted; the law's sensitivities equal the same equations")
    chk.assumptions += ["elliptic orbits; Keplerian rates for e > 0 and sin(i) > 0", "real arithmetic (rounding not modelled)"]
    w = World()
    for kind in SETS:
        law = Law(w, kind)
        psi = law.flat(law.control()[1])
        st2 = w.state()
        want = w.elems(st2, w.call(w.spec("gauss", SETS[kind]["cols"]), [w.arr(st2, law.x), law.mu], st2))
        if chk.must("three columns of five sensitivities", len(psi) == 15, law.where()):
            for j in range(15):
                chk.count("sensitivities")
                chk.eq(f"{kind}: sensitivity of {SETS[kind]['names'][j % 5]} to the {COMP[j // 5]} acceleration", psi[j], want[j], law.where(), law.st.pc)
        rates(chk, w, SETS[kind]["eom"], SETS[kind]["rates"], law.x, law.mu, want, SETS[kind]["names"])
    x = list(orbit("mee_with_a"))
    x[0] = S("p", pos=True)
    cols = [S(f"unused{j}") for j in range(15)]
    rates(chk, w, "eom_mee_gauss", "mee_rates", x, S("mu", pos=True), cols, ["p", "f", "g", "h", "k", "L"])
    chk.used(w.it)


def rates(chk, w, name, ref, x, mu, cols, names):
    """rates under thrust u and perturbation d, sensitivities given as the law's columns"""
    st = w.state()
    u, d = [S(f"u{j}") for j in range(3)], [S(f"d{j}") for j in range(3)]
    c = [w.it.new_list(st, cols[5 * j:5 * j + 5]) for j in range(3)]
    arg = Tup([mu, w.arr(st, u), c[0], c[1], c[2], w.arr(st, d)])
    got = w.elems(st, w.call(name, [S("t"), w.arr(st, x), arg], st))
    st2 = w.state()
    want = w.elems(st2, w.call(w.spec("gauss", ref), [w.arr(st2, x), mu, w.arr(st2, [a + b for a, b in zip(u, d)])], st2))
    chk.must("no path of the dynamics raises", not w.it.raises, w.where(name), str(w.it.raises[:1]))
    if chk.must("six element rates", len(got) == 6, w.where(name)):
        for j in range(6):
            chk.count("element rates")
            chk.eq(f"rate of {names[j]}", got[j], want[j], w.where(name), st.pc)
