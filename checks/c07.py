"""C07 direction of steepest descent"""
from .common import *
from .law import SETS, Law
from sa.models import diff_atom

COMP = ["radial", "transverse", "normal"]


def run(chk):
    chk.rule("raw direction of each generated law equals the formal gradient of its Q projected through its sensitivities; every evaluator returns the same values; thrust angles reproduce minus the normalised direction; reported rate is accel * gradient . direction")
    chk.assumptions += ["gradient not zero", "partial derivatives as computed by sympy.diff (kept as a formal operator)", "real arithmetic"]
    w = World()
    for kind in SETS:
        generated(chk, w, kind)
    angles(chk, w)
    feedback(chk, w)
    chk.used(w.it)


def dot(a, b):
    r = T.ZERO
    for x, y in zip(a, b):
        r = lift(lambda p, q, r0: num(r0) + num(p) * num(q), x, y, r)
    return r


def norm3(u):
    return lift(lambda *q: T.fsqrt(sum((num(z) ** 2 for z in q), T.ZERO)), *u)


def div(a, b):
    return lift(lambda p, q: num(p) / num(q), a, b)


def generated(chk, w, kind):
    law = Law(w, kind)
    wh = law.where()
    u, psi, q, dq = law.control()
    u, psi, dq = law.flat(u), law.flat(psi), law.flat(dq)
    if not chk.must("direction, sensitivities and gradient have 3, 15 and 5 components", (len(u), len(psi), len(dq)) == (3, 15, 5), wh):
        return
    grad = [lift(lambda v, x=x: diff_atom(num(v), x), q) for x in law.x[:5]]
    for j in range(5):
        chk.count("gradient components")
        chk.eq(f"{kind}: returned gradient component {SETS[kind]['names'][j]} is the derivative of Q", dq[j], grad[j], wh)
    raw = [dot(psi[5 * i:5 * i + 5], grad) for i in range(3)]
    n = norm3(raw)
    for i in range(3):
        chk.count("direction components")
        chk.eq_any(f"{kind}: {COMP[i]} component of the projected gradient", u[i], [raw[i], div(raw[i], n)], wh)
    p2 = law.flat(law.call(1))
    d2 = law.flat(law.call(2))
    rate = law.call(3)
    if chk.must("separate evaluators return 15 sensitivities and 5 derivatives", (len(p2), len(d2)) == (15, 5), wh):
        for j in range(15):
            chk.eq(f"{kind}: sensitivity evaluator agrees with the control evaluator", p2[j], psi[j], wh)
        for j in range(5):
            chk.eq(f"{kind}: gradient evaluator agrees with the control evaluator", d2[j], dq[j], wh)
    # rate under full thrust along the direction: f * |projected gradient|
    tot = div(sum_sq(raw), n)
    want = lift(lambda v: num(v) * law.f, tot)
    chk.count("rates")
    # the returned direction and sensitivities were proved equal to raw above: forms built from them are the same quantity
    own = [dot(psi[5 * i:5 * i + 5], dq) for i in range(3)]
    forms = [norm3(own), div(sum_sq(own), norm3(own)), n]
    chk.eq_any(f"{kind}: rate evaluator is the decrease under full thrust", rate, [lift(lambda v: num(v) * law.f, x) for x in forms] + [want], wh)



def sum_sq(u):
    return dot(u, u)


def angles(chk, w):
    T.reset_facts()
    u = [S(f"u{j}") for j in range(3)]
    st = w.state()
    r = w.it.try_iterate(w.call("_u_to_thrust_angles", [w.arr(st, u)], st), st)
    wh = w.where("_u_to_thrust_angles")
    if r is None or len(r) != 3:
        raise Undecided("_u_to_thrust_angles does not return three results")
    unit, al, be = w.elems(st, r[0]), r[1], r[2]
    n = T.fsqrt(u[0] ** 2 + u[1] ** 2 + u[2] ** 2)
    inplane = lift(lambda a, b: not (a == 1 and b == 1), G.sign_of(u[0]), G.sign_of(u[1]))
    inplane = b_not(b_and(lift(lambda a: a == 0, G.sign_of(u[0])), lift(lambda a: a == 0, G.sign_of(u[1]))))
    thrust(chk, "thrust angles", wh, al, be, [v / n for v in u], b_and(st.pc, inplane))
    for j in range(3):
        chk.eq("unit vector of the raw direction", unit[j], u[j] / n, wh, st.pc)


def thrust(chk, what, wh, al, be, d, pc):
    """(alpha, beta) reproduce minus the unit direction d"""
    v = [lift(lambda a, b: T.fcos(num(b)) * T.fsin(num(a)), al, be), lift(lambda a, b: T.fcos(num(b)) * T.fcos(num(a)), al, be), lift(lambda b: T.fsin(num(b)), be)]
    for j in range(3):
        chk.count("angle components")
        chk.eq(f"{what}: {COMP[j]} component of the thrust direction is minus that of the projected gradient", v[j], lift(lambda q: -num(q), d[j]), wh, pc)


def feedback(chk, w):
    """lyapunov_control_angles over an unspecified law"""
    T.reset_facts()
    u = [S(f"u{j}") for j in range(3)]
    psi = [[S(f"psi{i}{j}") for j in range(5)] for i in range(3)]
    dq = [S(f"dq{j}") for j in range(5)]
    f, q = S("accel"), S("q")
    name = "lyapunov_control_angles"
    wh = w.where(name)
    from sa.interp import OpaqueFn
    calls = []

    def law(it, st, a, k):
        calls.append(a)
        return it.new_list(st, [it.new_list(st, list(u)), it.new_list(st, [it.new_list(st, list(c)) for c in psi]), q, it.new_list(st, list(dq))])
    st = w.state()
    kw = dict(fun_lyapunov_control=OpaqueFn("law", law), mu=S("mu"), f=f, oe=w.arr(st, [S(f"oe{i}") for i in range(6)]), oeT=w.arr(st, [S(f"oeT{i}") for i in range(5)]),
              rpmin=S("rpmin"), m_petro=S("m"), n_petro=S("n"), r_petro=S("r"), b_petro=S("b"), k_petro=S("k"), wp=S("wp"), woe=w.arr(st, [S(f"w{i}") for i in range(5)]))
    r = w.it.try_iterate(w.call(name, [], st, kw), st)
    if r is None or len(r) != 6:
        raise Undecided("lyapunov_control_angles does not return six results")
    al, be, unit, ps, qq, rate = r
    n = T.fsqrt(u[0] ** 2 + u[1] ** 2 + u[2] ** 2)
    inplane = b_not(b_and(lift(lambda a: a == 0, G.sign_of(u[0])), lift(lambda a: a == 0, G.sign_of(u[1]))))
    thrust(chk, "feedback law", wh, al, be, [v / n for v in u], b_and(st.pc, inplane))
    chk.must("the law is evaluated", len(calls) >= 1, wh)
    got = w.elems(st, ps)
    if chk.must("sensitivities are handed through", len(got) == 15, wh):
        for j in range(15):
            chk.eq("sensitivities handed through in the law's order", got[j], psi[j // 5][j % 5], wh)
    chk.eq("Q handed through", qq, q, wh)
    want = sum((dq[j] * psi[i][j] * u[i] for i in range(3) for j in range(5)), T.ZERO) * f / n
    chk.count("rates")
    chk.eq("reported rate is accel * gradient . sensitivities . direction", rate, want, wh, st.pc)
    for j, v in enumerate(w.elems(st, unit)):
        chk.eq("returned unit vector", v, u[j] / n, wh, st.pc)
    earlier(chk, w, wh)


def earlier(chk, w, wh):
    """the controls belong to the arguments of this call, whatever was evaluated before"""
    from sa.interp import OpaqueFn
    name = "lyapunov_control_angles"
    vec = dict(oe=6, oeT=5, woe=5)
    scal = ["mu", "f", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp"]

    def law(it, st, a, k):
        a = [w.elems(st, x) if isinstance(x, (ArrRef, Ref)) else [x] for x in a] + [w.elems(st, x) if isinstance(x, (ArrRef, Ref)) else [x] for x in k.values()]
        v = lambda n: ap(it, st, n, *[x for y in a for x in y])
        L = lambda x: it.new_list(st, x)
        return L([L([v(f"u{j}") for j in range(3)]), L([L([v(f"psi{i}{j}") for j in range(5)]) for i in range(3)]), v("q"), L([v(f"dq{j}") for j in range(5)])])
    fn = OpaqueFn("law", law)

    def call(st, values):
        kw = {k: (w.arr(st, v) if isinstance(v, list) else v) for k, v in values.items()}
        r = w.it.try_iterate(w.call(name, [], st, dict(fun_lyapunov_control=fn, **kw)), st)
        out = []
        for x in r or []:
            n = w.it.models.as_nested(w.it, x, st)
            out += [x] if n is None else list(n[1])
        return out
    T.reset_facts()
    base = {n: S(n) for n in scal}
    base.update({n: [S(f"{n}{i}") for i in range(k)] for n, k in vec.items()})
    want = call(w.state(), base)
    st = w.state()
    for n in scal:
        call(st, dict(base, **{n: S("earlier " + n)}))
    for n, k in vec.items():
        for i in range(k):
            call(st, dict(base, **{n: [S(f"earlier {n}{i}") if i == j else base[n][j] for j in range(k)]}))
    got = call(st, base)
    chk.count("calls after others", len(scal) + sum(vec.values()))
    if chk.must("the controls do not depend on earlier evaluations", len(got) == len(want), wh):
        for g, x in zip(got, want):
            if vkey(g) != vkey(x):
                chk.eq("the controls do not depend on earlier evaluations", g, x, wh, st.pc)
