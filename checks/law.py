"""set-up of the generated control law for the formula checks"""
from .common import *

SETS = {
    "keplerian": dict(gen="symbolic_qlaw_keplerian", eom="eom_kep_gauss", cols="kep_columns", rates="kep_rates", names=["a", "e", "i", "node", "periapsis", "anomaly"]),
    "mee_with_a": dict(gen="symbolic_qlaw_mee_with_a", eom="eom_mee_with_a_gauss", cols="mee_a_columns", rates="mee_a_rates", names=["a", "f", "g", "h", "k", "L"]),
}


def params():
    d = {n: S(n, pos=True) for n in ("rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp")}
    return d


def orbit(kind):
    if kind == "keplerian":
        x = orbit_kep()
        T.assume_pos(T.fsin(x[2]))
        return list(x)
    return list(orbit_mee())


def targets(kind):
    n = ["aT", "eT", "iT", "OT", "oT"] if kind == "keplerian" else ["aT", "fT", "gT", "hT", "kT"]
    return [S(n[0], pos=True)] + [S(x) for x in n[1:]]


def weights():
    return [S(f"w{j}", nonneg=True) for j in range(5)]


class Law:
    """generated evaluators of one element set"""

    def __init__(self, w, kind, x=None):
        self.w, self.kind = w, kind
        self.x = orbit(kind) if x is None else x
        self.mu, self.f = S("mu", pos=True), S("accel", pos=True)
        self.oeT, self.woe, self.p = targets(kind), weights(), params()
        self.st = w.state()
        fs = w.call(SETS[kind]["gen"], [], self.st)
        self.raises = list(w.it.raises)
        self.funs = w.it.try_iterate(fs, self.st)
        if self.funs is None or len(self.funs) != 4:
            raise Undecided("the generator does not return four evaluators")

    def args(self):
        st, p = self.st, self.p
        return [self.mu, self.f, self.w.arr(st, self.x), self.w.arr(st, self.oeT), p["rpmin"], p["m_petro"], p["n_petro"],
                p["r_petro"], p["b_petro"], p["k_petro"], p["wp"], self.w.arr(st, self.woe)]

    def call(self, i):
        return self.w.it.call(self.funs[i], self.args(), {}, self.st)

    def control(self):
        r = self.w.it.try_iterate(self.call(0), self.st)
        if r is None or len(r) != 4:
            raise Undecided("the control evaluator does not return four results")
        return r

    def flat(self, v):
        return self.w.elems(self.st, v)

    def where(self):
        return self.w.where(SETS[self.kind]["gen"])
