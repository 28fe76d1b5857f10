"""C12 convergence criterion"""
from .common import *


def run(chk):
    chk.rule("the Boolean returned by each convergence test is equivalent, on every path, to: every element with non-zero weight differs from its target by at most its tolerance (angles by the shorter way round)")
    chk.assumptions += ["real arithmetic; no undefined numbers in the state"]
    w = World()
    one(chk, w, "check_convergence_mee", ["plain"])
    one(chk, w, "check_convergence_keplerian", ["kep_acos", "kep_atan2", "kep_atan2b", "kep_mod", "kep_mod2"])
    chk.used(w.it)


def one(chk, w, name, forms):
    T.reset_facts()
    wh = w.where(name)
    for woe, label in (([S(f"w{j}") for j in range(5)], "any weights"), *((([T.ZERO if i == j else T.ONE for i in range(5)]), f"weight {j} zero") for j in range(5)), ([T.ZERO] * 5, "all weights zero")):
        st = w.state()
        x = [S(f"x{j}") for j in range(6)]
        t = [S(f"t{j}") for j in range(5)]
        tol = [S(f"tol{j}", pos=True) for j in range(5)]
        args = lambda s: [w.arr(s, x), w.arr(s, t), w.arr(s, woe), w.arr(s, tol)]
        got = truth(w, w.call(name, args(st), st))
        chk.count("weight patterns")
        chk.must("no path of the test raises", not w.it.raises, wh, str(w.it.raises[:1]))
        wants = []
        for f in forms:
            s2 = w.state()
            wants.append(truth(w, w.call(w.spec("convergence", f), args(s2), s2)))
        good = [q for q in wants if not refute(iff(got, q), st.pc)]
        chk.holds(f"converged exactly when every weighted element is within tolerance ({label})", iff(got, (good or wants)[0]), wh, st.pc)
        s3 = w.state()
        five = w.it.new_array(s3, (5,), x[:5])
        if label == "any weights":
            again = truth(w, w.call(name, [five] + args(s3)[1:], s3))
            chk.holds("the fast angle has no influence on the outcome", iff(got, again), wh, s3.pc)


def truth(w, v):
    return lift(lambda b: b if isinstance(b, bool) else (num(b) is not T.ZERO), v)


def iff(a, b):
    return lift(lambda p, q: p == q, a, b)
