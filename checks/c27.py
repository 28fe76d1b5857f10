"""C27 clamping of elements, wrapping of angles"""
from .common import *


def run(chk):
    chk.rule("value numbers of the clean-up equal clamp(x, lower, upper) for the slow elements and x for the fast angle; wrap returns alpha minus a whole number of turns inside [-pi, pi)")
    chk.assumptions += ["lower bounds do not exceed upper bounds", "real arithmetic"]
    w = World()
    safety(chk, w)
    wrap(chk, w)
    chk.used(w.it)


def safety(chk, w):
    T.reset_facts()
    name = "elements_safety"
    wh = w.where(name)
    st = w.state()
    x = [S(f"x{j}") for j in range(6)]
    lo = [S(f"lo{j}") for j in range(6)]
    hi = [S(f"hi{j}") for j in range(6)]
    a, b, c = w.arr(st, x), w.arr(st, lo), w.arr(st, hi)
    r = w.call(name, [a, b, c], st)
    got = w.elems(st, r)
    pc = st.pc
    for j in range(5):
        pc = b_and(pc, lift(lambda s: s <= 0, G.sign_of(lo[j] - hi[j])))
    chk.must("no path raises", not w.it.raises, wh, str(w.it.raises[:1]))
    if not chk.must("clean-up returns six elements", len(got) == 6, wh):
        return
    for j in range(6):
        chk.count("elements")
        if j == 5:
            chk.eq("fast angle unchanged", got[j], x[j], wh, pc)
            continue
        below = lift(lambda s: s < 0, G.sign_of(x[j] - lo[j]))
        above = lift(lambda s: s > 0, G.sign_of(x[j] - hi[j]))
        want = ite(below, lo[j], ite(above, hi[j], x[j]))
        chk.eq(f"element {j} is clamped to its bounds", got[j], want, wh, pc)
    chk.must("the given vectors are left as they are", [vkey(v) for v in w.elems(st, a) + w.elems(st, b) + w.elems(st, c)] == [vkey(v) for v in x + lo + hi], wh)
    # default bounds: shorter lower-bound vectors are accepted
    st = w.state()
    r = w.call(name, [w.arr(st, x), w.arr(st, lo[:5]), w.arr(st, hi[:5])], st)
    chk.must("five bounds suffice", not w.it.raises, wh, str(w.it.raises[:1]))


def wrap(chk, w):
    T.reset_facts()
    name = "wrap"
    wh = w.where(name)
    st = w.state()
    al = S("alpha")
    r = w.call(name, [al], st)
    two = 2 * T.PI
    forms = [T.fmod(al + T.PI, two) - T.PI, al - two * T.ffloor((al + T.PI) / two)]
    chk.count("angles")
    chk.eq_any("wrapped angle is alpha - 2 pi floor((alpha + pi) / 2 pi)", r, forms, wh, st.pc)
    # element by element on arrays
    st = w.state()
    xs = [S(f"al{j}") for j in range(3)]
    got = w.elems(st, w.call(name, [w.arr(st, xs)], st))
    if chk.must("arrays are wrapped element by element", len(got) == 3, wh):
        for g, x in zip(got, xs):
            chk.count("angles")
            chk.eq("wrapped array element", g, T.fmod(x + T.PI, two) - T.PI, wh, st.pc)
