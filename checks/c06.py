"""C06 the Lyapunov function"""
from .common import *
from .law import SETS, Law


def linear(q, ws):
    """q is a homogeneous linear form in ws"""
    ids = {T.sym_id(v) for v in ws}
    for m, c in q.terms.items():
        n = 0
        for i, e in m:
            if i in ids:
                n += e
            elif ids & T.all_atoms(T.atom_poly(T._atoms[i])):
                n = None
                break
        if n != 1:
            break
    else:
        return True
    # not in distributed form: additivity and homogeneity as identities
    rest = q
    t = S("scale", pos=True)
    for v in ws:
        one = T.subst(q, {i: T.ZERO for i in ids if i != T.sym_id(v)})
        rest = rest - one
        if not T.is_zero(T.subst(one, {T.sym_id(v): v * t}) - one * t):
            return False
    return T.is_zero(rest)


def run(chk):
    chk.rule("the value number of Q returned by each generated law equals that of the documented formula; the Keplerian Q is unchanged by a full turn of node or periapsis")
    chk.assumptions += ["elliptic orbits; Keplerian set for e > 0 and sin(i) > 0", "law parameters positive", "real arithmetic (rounding not modelled)"]
    w = World()
    for kind in SETS:
        law = Law(w, kind)
        wh = law.where()
        q = law.control()[2]
        chk.must("the generator runs without error", not law.raises, wh, str(law.raises[:1]))
        refs = []
        for name in (["q_kep", "q_kep_signed"] if kind == "keplerian" else ["q_mee"]):
            st = w.state()
            p = law.p
            refs.append(w.call(w.spec("quotient", name), [law.mu, law.f, w.arr(st, law.x), w.arr(st, law.oeT), p["rpmin"], p["m_petro"], p["n_petro"],
                                                           p["r_petro"], p["b_petro"], p["k_petro"], p["wp"], w.arr(st, law.woe)], st))
        chk.count("element sets")
        # a linear form in the weights is determined by its five coefficients
        if not all(isinstance(v, T.Poly) for v in [q] + refs):
            raise Undecided("Q depends on the path taken")
        chk.must(f"{kind}: Q is a weighted sum over the five slow elements", linear(q, law.woe), wh)
        for j in range(5):
            one = {T.sym_id(law.woe[i]): T.ZERO for i in range(5) if i != j}
            chk.count("terms of Q")
            chk.eq_any(f"{kind}: term of {SETS[kind]['names'][j]}", T.subst(q, one), [T.subst(r, one) for r in refs], wh)
        if kind == "keplerian":
            for j in (3, 4):
                for v, nm in ((law.x[j], "current"), (law.oeT[j], "target")):
                    chk.count("full turns")
                    chk.eq(f"Q unchanged by a full turn of the {nm} {SETS[kind]['names'][j]}", T.subst(q, {T.sym_id(v): v + 2 * T.PI}), q, wh)
    chk.floor("terms of Q", 10)
    chk.used(w.it)
