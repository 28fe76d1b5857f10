"""C32 console reports state the run's own values, and reporting changes nothing"""
import re
import string
from .finished import *

SUMMARY = ("pretty", "pretty_results", "pretty_settings")


def run(chk):
    chk.rule("the values printed by each summary, in order, are the problem's own values, after the right labels; each progress line shows the recorded time, the five differences of the recorded state to the target and its fast angle; each closing message is printed exactly with the exit code it names, and nothing at verbosity 0; no value of the run depends on the verbosity")
    chk.assumptions += ["number formats keep enough digits", "progress lines are read from left to right; the step counter is not compared"]
    for e in P:
        for n in (1, 3) if chk.tier != "thorough" else (1, 2, 3, 4, 5):
            summaries(chk, e, n)
        grids(chk, e)
    for kw in (dict(elements="mee_with_a"), dict(elements="keplerian", integrator="rkf45", eta="call", batt=False)) + (() if chk.tier != "thorough" else (dict(elements="mee_with_a", integrator="rkf45", sundman=True, eta="zero"), dict(elements="keplerian", eta="mixed"))):
        progress(chk, kw)
        messages(chk, kw)
        silent(chk, kw)
        frame(chk, kw)
    chk.floor("printed values", 80)
    chk.floor("progress lines", 4)
    chk.floor("messages", 6)


# ------------------------------------------------------------ printed tokens
def tokens(it, st, v):
    """printed value -> [text or value]"""
    if isinstance(v, str):
        return [v]
    if isinstance(v, bool) or v is None:
        return [v]
    if isinstance(v, int):
        return [T.const(v)]
    if isinstance(v, Opq):
        a = v.args
        if v.name == "fmt":
            return tokens(it, st, a[0])
        if v.name == "fstring":
            return [t for p in a for t in tokens(it, st, p)]
        if v.name == "strAdd":
            return tokens(it, st, a[0]) + tokens(it, st, a[1])
        if v.name in ("str", "repr", "round", "format") and a:
            return tokens(it, st, a[0])
        if v.name == "join" and len(a) == 2:
            out = []
            for j, x in enumerate(a[1].items):
                out += ([a[0]] if j else []) + tokens(it, st, x)
            return out
        if v.name == "strMod":
            vals = list(a[1:])
            parts = re.split(r"%[-+ #0-9.]*[a-zA-Z]", a[0].replace("%%", "")) if isinstance(a[0], str) else None
            if parts is not None and len(parts) == len(vals) + 1:
                return [t for p, x in zip(parts, vals + [""]) for t in [p] + tokens(it, st, x)]
        if v.name == "strmethod" and a[1] == "format" and isinstance(a[0], str):
            out, k = [], 0
            for text, field, spec, conv in string.Formatter().parse(a[0]):
                out.append(text)
                if field is None:
                    continue
                if field == "":
                    field, k = str(k), k + 1
                if not field.isdigit() or int(field) + 2 >= len(a):
                    raise Undecided(f"format field {field!r} of a printed text")
                out += tokens(it, st, a[2 + int(field)])
            return out
        if v.name == "strmethod" and a[1] in ("ljust", "rjust", "center", "strip", "rstrip", "lstrip", "expandtabs"):
            return tokens(it, st, a[0])
    if isinstance(v, (Ref, ArrRef, Tup)):
        xs = it.try_iterate(v, st)
        if xs is not None:
            return ["["] + [t for x in xs for t in tokens(it, st, x) + [", "]] + ["]"]
    return [v]


def choices(x):
    """[(value, condition)]: texts that depend on a condition, separated"""
    ls = G.leaves(x) if isinstance(x, Node) else []
    if any(isinstance(l, (str, Opq)) for l, _ in ls):
        return ls
    return [(x, True)]


def printed(it, st, since=0):
    """[(pc, tokens, where)] of the print calls on the way to st"""
    out = []
    for pc, kind, data, mod, fn, line in st.events[since:]:
        c = b_and(pc, st.pc)
        if c is False:
            continue
        if kind == "print":
            args = [(c, [])]
            for x in data[0]:
                args = [(b_and(d, e), a + tokens(it, st, y) + [" "]) for d, a in args for y, e in choices(x) if b_and(d, e) is not False]
        elif kind == "call" and isinstance(data[0], (Opq, Ext)) and "stdout" in str(data[0]) and "write" in str(data[0]):
            args = [(b_and(c, e), tokens(it, st, y)) for x in data[1] for y, e in choices(x) if b_and(c, e) is not False]
        else:
            continue
        out += [(d, toks, f"{mod.replace('.', '/')}.py: {fn} (line {line})") for d, toks in args]
    return out


def values(toks):
    """[(value, text since the previous value)]"""
    out, text = [], ""
    for t in toks:
        if isinstance(t, str):
            text += t
        else:
            out.append((t, text))
            text = ""
    return out, text


def word(name, text):
    return re.search(r"(?<![A-Za-z0-9_])" + re.escape(name) + r"(?![A-Za-z0-9_])", text) is not None


def show(vs):
    return ", ".join(str(v)[:40] for v, _ in vs)[:400]


# ----------------------------------------------------------------- summaries
def summaries(chk, e, n):
    for name in SUMMARY:
        r = Finished(elements=e, n=n)
        it, st = r.it, r.st
        for k, v in (("exitcode", S("code")), ("converge", G.boolvar("converge")), ("exit_at_relaxed", S("nrelax"))):
            it.setattr(r.q, k, v, st)
        wh = r.where(name)
        n0 = len(st.events)
        r.call(name, st)
        chk.count("summaries")
        toks = [t for _, ts, _ in printed(it, st, n0) for t in ts + ["\n"]]
        names = [x for x in it.iterate(r.attr("element_names"), st)]
        chk.must("the element names are those of the element set, in its order", names == NAMES[e], r.where("__init__"), f"{e}: {names}")
        tolr = list(it.models.as_nested(it, r.attr("tol_oe_relaxed"), st)[1])
        tol = list(it.models.as_nested(it, r.attr("tol_oe"), st)[1])
        oeT = list(it.models.as_nested(it, r.oeT, st)[1])
        woe = list(it.models.as_nested(it, r.attr("woe"), st)[1])
        last = r.states[n]
        if name == "pretty":
            want = []
            for j in range(5):
                want += [(S(f"x0_{j}"), names[j]), (oeT[j], ""), (woe[j], "weight")]
        elif name == "pretty_results":
            want = [(S("code"), "code"), (G.boolvar("converge"), "onverge")]
            for j in range(5):
                want += [(last[j], names[j]), (T.fabs(last[j] - oeT[j]), "error")]
            want += [(r.times[n], "time"), (r.masses[n], "mass")]
        else:
            want = [(x, "") for x in tol] + [(x, "") for x in tolr] + [(S("nrelax"), "")]
            text = "".join(t if isinstance(t, str) else "#" for t in toks)
            for x in [e, "rk4"] + names[:5]:
                chk.must("settings name the element set, its elements and the integrator", word(x, text), wh, f"{x} is not printed")
        got, _ = values(toks)
        chk.count("printed values", len(got))
        if not chk.must("the summary prints the values it announces", len(got) == len(want), wh, f"{e}: {len(got)} values instead of {len(want)}: {show(got)}"):
            continue
        for (v, text), (x, lab) in zip(got, want):
            if isinstance(v, (Poly, Node)) or num(v) is not None:
                if isinstance(x, Node):
                    chk.must("printed value", vkey(v) == vkey(x), wh, f"{e}: {str(v)[:80]} instead of {str(x)[:80]}")
                else:
                    chk.eq("printed value", v, x, wh, st.pc)
            else:
                chk.must("printed value", vkey(v) == vkey(x), wh, f"{e}: {str(v)[:80]} instead of {str(x)[:80]}")
            if lab:
                chk.must("printed value follows its label", lab in text if len(lab) > 3 else word(lab, text), wh, f"{e}: {str(x)[:60]} follows {text[-60:]!r} instead of {lab!r}")
        chk.used(it)


def grids(chk, e):
    """the number of evaluation points announced is the number used"""
    r = Finished(elements=e, n=2, times=[T.ZERO, T.const(1) / 50, T.const(3) / 100])
    it, st = r.it, r.st
    n0 = len(st.events)
    cart = r.call("get_cartesian_history", st, interpolate=True)
    sh = getattr(cart, "shape", None)
    for c, toks, wh in printed(it, st, n0):
        for v in re.findall(r"\d+", "".join(t if isinstance(t, str) else str(num(t)) for t in toks)):
            chk.count("announced numbers of points")
            chk.must("announced number of points is the number used", sh is not None and int(v) == sh[-1], wh, f"{v} announced, {sh} used")


# --------------------------------------------------------------------- solve
def progress(chk, kw):
    r = Run(verbosity=2, extra=dict(print_frequency=1), hook=False, stale=False, **kw)
    it, w = r.it, r.where
    oeT = r.Pr["oeT"]
    for k, s in r.ends():
        new, t = r.recorded(s, "states"), r.recorded(s, "times")
        tgt = snap(it, s, r.attr(s, "oeT"))
        for c, toks, wh in printed(it, s, r.nevents()):
            vs, _ = values(toks)
            if len(vs) < 3:
                continue
            chk.count("progress lines")
            want = [t] + [it.binop("Sub", new[j], tgt[j], s) for j in range(5)] + [new[5]]
            if not chk.must("a progress line shows time, five differences and the fast angle", len(vs) in (7, 8), wh, show(vs)):
                continue
            for (v, _), x in zip(vs[-7:], want):
                chk.eq("progress line shows the recorded values", v, x, wh, c)
    chk.used(it)


KIND = (("success", lambda t: "success" in t or "reach" in t), ("time", lambda t: "time" in t), ("mass", lambda t: "mass" in t), ("angles", lambda t: "angle" in t or "nan" in t))
CODES = {"success": (1, 2), "time": (-2,), "mass": (-1,), "angles": (-3,)}


def messages(chk, kw):
    """closing messages agree with the exit code"""
    r = Run(verbosity=1, hook=False, stale=False, **kw)
    it, w, fin = r.it, r.where, r.st
    code = r.attr(fin, "exitcode")
    is_ = lambda cs: lift(lambda x: num(x) is not None and num(x).const() in cs, code)
    seen = {k: False for k, _ in KIND}
    todo = [(c, toks, wh) for c, toks, wh in printed(it, fin, r.n0)]
    for k, s in r.ends(steps=False):
        if k != "back":
            todo += [(b_and(c, fin.pc), toks, wh) for c, toks, wh in printed(it, s, r.nevents())]
        else:
            for c, toks, wh in printed(it, s, r.nevents()):
                chk.holds("a run that continues prints no message at verbosity 1", False, wh, c)
    for c, toks, wh in todo:
        if c is False:
            continue
        text = "".join(t for t in toks if isinstance(t, str)).lower()
        kind = next((k for k, f in KIND if f(text)), None)
        if kind is None:
            continue
        chk.count("messages")
        chk.holds("a closing message is printed only with the exit code it names", is_(CODES[kind]), wh, c, f"({text.strip()!r})")
        seen[kind] = b_or(seen[kind], c)
    for kind in ("success", "time"):
        chk.holds(f"the message about {kind} is printed whenever the run ends so", seen[kind], w, b_and(fin.pc, is_(CODES[kind])))
    chk.used(it)


def silent(chk, kw):
    r = Run(verbosity=0, hook=False, stale=False, **kw)
    it = r.it
    for st, since in [(r.st, 0)] + [(s, r.nevents()) for _, s in r.ends(steps=False)]:
        chk.count("silent paths")
        for c, toks, wh in printed(it, st, since):
            chk.holds("nothing is printed at verbosity 0", False, wh, c)
    chk.used(it)


def frame(chk, kw):
    """no recorded or final value depends on the verbosity or the print frequency"""
    verb, freq = S("verbosity", nonneg=True), S("every", pos=True)
    r = Run(verbosity=verb, extra=dict(print_frequency=freq), hook=False, stale=False, **kw)
    it = r.it
    bad = carried(r.L, {T.sym_id(verb), T.sym_id(freq)})
    for k, s in r.ends():
        for name in LISTS:
            v = r.recorded(s, name)
            for x in v if isinstance(v, list) else [v]:
                chk.count("recorded values")
                chk.must("no recorded value depends on the reporting", not mentions(x, bad), r.where, f"{name}: {str(x)[:300]}")
        for kind in ("integ", "law", "dqdt", "ptrb", "clean", "conv", "threshold"):
            for e in r.events(s, kind):
                chk.count("calls of a step")
                chk.must("no argument of a calculation depends on the reporting", not any(mentions(x, bad) for x in flat(e.data[0])), r.where, f"{kind} call in {e.where()}")
        if k != "back":
            chk.holds("no way to end the run depends on the reporting", not mentions(s.pc, bad), r.where, s.pc, k)
    for name in ("exitcode", "converge"):
        chk.must("the outcome does not depend on the reporting", not mentions(r.attr(r.st, name), bad), r.where, name)
    chk.used(it)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    return [x]


def carried(L, bad):
    """symbols and switches of the loop-carried values that depend on the given symbols"""
    bad = set(bad)
    while True:
        n = len(bad)
        for p, (_, back) in L.leafs.items():
            if mentions(back, bad):
                v = L.values[L.slots[p]]
                if isinstance(v, Node):
                    bad.add(v.var)
                bad |= {T.sym_id(x) for x, _ in G.leaves(v) if isinstance(x, Poly)}
        if len(bad) == n:
            return bad


def mentions(v, ids):
    """the value or one of its conditions uses one of the symbols"""
    seen = set()

    def go(x):
        if isinstance(x, Node):
            if x.uid in seen:
                return False
            seen.add(x.uid)
            return x.var in ids or data(x.var.data) or any(go(k) for k in x.kids)
        return data(x)

    def data(d):
        if isinstance(d, Tup):
            return any(go(x) for x in d.items)
        return isinstance(d, Poly) and any(i in ids for i in T.all_atoms(d))

    return go(v)
