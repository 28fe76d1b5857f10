"""C09 Runge-Kutta order conditions"""
from fractions import Fraction as Fr
from .common import *
from .c31 import nonzero
from sa.interp import OpaqueFn


def run(chk):
    chk.rule("the Butcher tableau read off the source (stage times, stage states, weights) satisfies the order conditions exactly; proposed step equals the documented expression; arguments are unchanged")
    chk.assumptions += ["smooth right-hand sides (order conditions)", "exact rational coefficients"]
    w = World()
    a, b, c, s = scheme(chk, w, "rk4", [])
    wh = w.where("rk4")
    if a is not None:
        chk.must("four stages at most per step", s == 4, wh, f"{s} evaluations of the right-hand side")
        order(chk, wh, "fixed-step scheme", a, b, c, 4)
    rkf(chk, w)
    chk.used(w.it)


def evaluate(w, name, extra, n):
    """call the integrator on an n-component state with an unspecified right-hand side"""
    T.reset_facts()
    st = w.state()
    t, h = S("t"), S("h")
    y = [S(f"y{j}") for j in range(n)]
    ya = w.arr(st, y)
    p = Opq("params")
    calls, memo = [], {}

    def rhs(it, st2, args, kw):
        if len(args) != 3 or kw:
            raise Undecided("right-hand side is not called as rhs(t, y, p)")
        ys = w.elems(st2, args[1])
        key = (vkey(args[0]),) + tuple(vkey(v) for v in ys)
        if key not in memo:
            memo[key] = [S(f"K{len(memo)}_{j}") for j in range(n)]
            calls.append((args[0], ys, args[2]))
        return it.new_array(st2, (n,), list(memo[key]))
    it = w.it
    r = w.call(name, [OpaqueFn("rhs", rhs), t, h, ya, p] + list(extra), st)
    return st, t, h, y, ya, p, calls, r


def lin(v, base, h, n, s):
    """coefficients of h*K_i in v - base for component 0, and whether every component has the same form"""
    out = []
    for comp in range(n):
        d = v[comp] - base[comp]
        co = [Fr(0)] * s
        for m, q in d.terms.items():
            names = {T._atoms[i].name: e for i, e in m}
            k = [x for x in names if x.startswith("K")]
            if len(k) != 1 or names.get("h") != 1 or len(names) != 2 or names[k[0]] != 1 or not k[0].endswith(f"_{comp}"):
                return None
            co[int(k[0][1:].split("_")[0])] += q
        out.append(co)
    return out[0] if all(o == out[0] for o in out) else None


def scheme(chk, w, name, extra):
    wh = w.where(name)
    n = 2
    st, t, h, y, ya, p, calls, r = evaluate(w, name, extra, n)
    s = len(calls)
    chk.count("stages", s)
    r = r if name == "rk4" else w.it.try_iterate(r, st)[0]
    res = w.elems(st, r)
    chk.must("arguments are not modified", [vkey(v) for v in w.elems(st, ya)] == [vkey(v) for v in y], wh)
    a, c = [], []
    for i, (ti, yi, pi) in enumerate(calls):
        chk.must("parameters reach every stage unchanged", vkey(pi) == vkey(p), wh)
        ai = lin([num(v) for v in yi], y, h, n, s)
        d = num(ti) - t
        ci = None
        if d is T.ZERO:
            ci = Fr(0)
        elif len(d.terms) == 1:
            (m, q), = d.terms.items()
            if m == ((T.sym_id(h), 1),):
                ci = q
        if not chk.must("stage state is the start plus h times a combination of earlier slopes", ai is not None, wh, f"stage {i}: {yi}"):
            return None, None, None, s
        if not chk.must("stage time is the start plus a fraction of h", ci is not None, wh, f"stage {i}: {ti}"):
            return None, None, None, s
        a.append(ai)
        c.append(ci)
    b = lin([num(v) for v in res], y, h, n, s)
    if not chk.must("result is the start plus h times a combination of the slopes", b is not None, wh, str(res)[:300]):
        return None, None, None, s
    for i in range(s):
        chk.must(f"stage {i}: time fraction equals the sum of its coefficients", sum(a[i]) == c[i], wh, f"{c[i]} vs {sum(a[i])}")
    return a, b, c, s


def order(chk, wh, what, a, b, c, n):
    s = len(b)
    R = range(s)

    def mv(v):
        return [sum(a[i][j] * v[j] for j in R) for i in R]

    def pr(*vs):
        out = []
        for i in R:
            x = Fr(1)
            for v in vs:
                x *= v[i]
            out.append(x)
        return out

    def bd(v):
        return sum(b[i] * v[i] for i in R)
    one = [Fr(1)] * s
    Ac = mv(c)
    conds = [(1, one, 1), (2, c, 2), (3, pr(c, c), 3), (3, Ac, 6),
             (4, pr(c, c, c), 4), (4, pr(c, Ac), 8), (4, mv(pr(c, c)), 12), (4, mv(Ac), 24),
             (5, pr(c, c, c, c), 5), (5, pr(c, c, Ac), 10), (5, pr(Ac, Ac), 20), (5, pr(c, mv(pr(c, c))), 15), (5, pr(c, mv(Ac)), 30),
             (5, mv(pr(c, c, c)), 20), (5, mv(pr(c, Ac)), 40), (5, mv(mv(pr(c, c))), 60), (5, mv(mv(Ac)), 120)]
    for o, v, d in conds:
        if o <= n:
            chk.count("order conditions")
            chk.must(f"{what}: order-{o} condition with right-hand side 1/{d}", bd(v) == Fr(1, d), wh, f"left-hand side is {bd(v)}")


def rkf(chk, w):
    name = "rkf45"
    wh = w.where(name)
    tol = S("tol", pos=True)
    a, b, c, s = scheme(chk, w, name, [tol])
    if a is None:
        return
    order(chk, wh, "fourth-order solution", a, b, c, 4)
    # companion: from the proposed step of a one-component state
    st, t, h, y, ya, p, calls, r = evaluate(w, name, [tol], 1)
    r = w.it.try_iterate(r, st)
    if r is None or len(r) != 2:
        chk.must("embedded scheme returns the state and the proposed step", False, wh)
        return
    K = [S(f"K{i}_0") for i in range(s)]
    ds = [error_vector(v, h, K) for v, c0 in G.leaves(num(r[1]) if num(r[1]) is not None else r[1]) if isinstance(v, T.Poly)]
    ds = [v for v in ds if v is not None]
    d, hn = (ds[0] if ds else None), r[1]
    if not chk.must("proposed step depends on the difference of both solutions", d is not None, wh, str(hn)[:300]):
        return
    # the difference is known up to its scale; a fifth-order companion fixes the scale
    c4 = [x ** 4 for x in c]
    db = sum(d[i] * c4[i] for i in range(s))
    if db != 0:
        k = (Fr(1, 5) - sum(b[i] * c4[i] for i in range(s))) / db
        d = [k * x for x in d]
    order(chk, wh, "fifth-order companion", a, [b[i] + d[i] for i in range(s)], c, 5)
    # proposed step for two components
    st, t, h, y, ya, p, calls, r = evaluate(w, name, [tol], 2)
    hn = w.it.try_iterate(r, st)[1]
    e2 = T.ZERO
    for j in range(2):
        e = T.ZERO
        for i in range(s):
            e = e + T.const(d[i]) * h * S(f"K{i}_{j}")
        e2 = e2 + e ** 2
    want = h * T.const(Fr(84, 100)) * T.power(tol / T.fsqrt(e2), Fr(1, 4))
    alt = h * T.const(Fr(84, 100)) * T.power(tol, Fr(1, 4)) * T.power(e2, Fr(-1, 8))
    chk.count("step proposals")
    err = T.fsqrt(e2)
    some = b_and(nonzero(err), lift(lambda x: x != 0, G.sign_of(err)))
    chk.eq_any("proposed step is h * 0.84 * (tol / |difference of both solutions|)^(1/4)", hn, [want, alt], wh, b_and(st.pc, some))
    none = b_and(st.pc, b_and(b_not(nonzero(err)), b_and(*[lift(lambda x: x == 0, G.sign_of(q)) for q in (e2, err)])))
    same = lift(lambda v: lift(lambda x: x >= 0, G.sign_of(num(v) * h - h * h)) if num(v) is not None else False, hn)
    chk.holds("without a difference the step does not shrink or turn round", same, wh, none)


def error_vector(hn, h, K):
    """coefficients d_i with the norm of h * sum d_i K_i appearing in hn"""
    ids = {T.sym_id(k): i for i, k in enumerate(K)}
    cands = []
    for i in sorted(T.all_atoms(hn)):
        at = T._atoms[i]
        for q in ([at.args[0]] if at.kind == "fn" and at.name == "abs" else [at.poly] if at.poly is not None else []):
            if isinstance(q, T.Poly) and set(T.all_atoms(q)) & set(ids):
                cands.append(q)
    for q in cands:
        co = [Fr(0)] * len(K)
        ok = True
        for m, c in q.terms.items():
            ks = [(i, e) for i, e in m if i in ids]
            rest = [(i, e) for i, e in m if i not in ids]
            if len(ks) != 1 or ks[0][1] != 1 or (rest and rest != [(T.sym_id(h), 1)]):
                ok = False
                break
            co[ids[ks[0][0]]] += c
        if ok:
            return co
    return None
