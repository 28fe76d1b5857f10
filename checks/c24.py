"""C24 exported results"""
from .finished import *


def run(chk):
    chk.rule("value numbers of every entry of the exported dictionary equal those of the recorded run in the documented representation; the object handed to the JSON encoder is that dictionary, and the encoder turns its arrays into equal lists; no store reaches the problem object")
    chk.assumptions += ["recorded lists of concrete lengths: 1, 2 and 3 steps (thorough: up to 7); the export treats all steps alike", "json and open behave as documented"]
    for n in (1, 2, 3) if chk.tier == "quick" else (1, 2, 3, 4, 5, 7):
        for e in P:
            for angles in (False, True):
                for path in (None, "result.json"):
                    for units in (None, "scales"):
                        one(chk, e, n, angles, path, units)
    chk.floor("exports analysed", 40)


def num_list(it, st, v):
    r = it.models.as_nested(it, v, st)
    return (None, None) if r is None else (r[0], list(r[1]))


def one(chk, e, n, angles, path, units):
    r = Finished(e, n=n)
    it, st = r.it, r.st
    wh = r.where("save_to_dict")
    chk.used(it)
    chk.count("exports analysed")
    before = {k: deep(it, st, r.attr(k)) for k in LISTS}
    attrs = dict(st.heap[r.q.loc].attrs)
    cu = None if units is None else Opq("unit scales", ())
    kw = dict(save_control_angles=angles)
    if units:
        kw["canonical_units"] = cu
    d = r.call("save_to_dict", st, path, **kw)
    lab = f"{e}, {n} steps, {'angles' if angles else 'unit vectors'}{', file' if path else ''}"
    chk.must("exporting a finished run does not fail", not it.raises and not it.unbound, wh, f"{reportable(it, r)[:1]} ({lab})")
    get = lambda k: it.getitem(d, k, st, None)
    try:
        vals = {k: get(k) for k in ("t0", "tf", "times", "states", "controls", "canonical_units")}
    except Dead:
        chk.must("the exported dictionary has its documented entries", False, wh, f"{reportable(it, r)[:1]} ({lab})")
        return
    chk.must("the exported dictionary has its documented entries", not it.raises, wh, f"{reportable(it, r)[:1]} ({lab})")
    it.raises.clear()
    sh, ts = num_list(it, st, vals["times"])
    if chk.must("one time per recorded entry", sh == (n + 1,), wh, f"shape {sh} ({lab})"):
        for i in range(n + 1):
            chk.eq(f"exported time {i} is the recorded one", ts[i], r.times[i], wh, st.pc)
    chk.eq("the exported final time is the last recorded time", vals["tf"], r.times[-1], wh, st.pc)
    chk.eq("the exported start time is the first recorded time", vals["t0"], r.times[0], wh, st.pc)
    chk.must("the given unit scales are exported", vals["canonical_units"] is cu or vkey(vals["canonical_units"]) == vkey(cu), wh, str(vals["canonical_units"])[:100])
    sh, xs = num_list(it, st, vals["states"])
    if chk.must("one state of six elements and mass per recorded entry", sh == (n + 1, 7), wh, f"shape {sh} ({lab})"):
        for i in range(n + 1):
            want = mee(r, r.states[i])
            for j in range(6):
                chk.eq(f"exported state {i}: modified equinoctial element {'pfghkL'[j]}", xs[7 * i + j], want[j], wh, st.pc, angle=j == 5)
            chk.eq(f"exported state {i}: mass", xs[7 * i + 6], r.masses[i], wh, st.pc)
    sh, cs = num_list(it, st, vals["controls"])
    m = 3 if angles else 4
    if chk.must("one control per exported state, padded at the end", sh == (n + 1, m), wh, f"shape {sh} ({lab})"):
        for i in range(n):
            a, b, thr = r.controls[i]
            want = [a, b, thr] if angles else [T.fcos(b) * T.fsin(a), T.fcos(b) * T.fcos(a), T.fsin(b), thr]
            for j in range(m):
                chk.eq(f"exported control {i}, component {j}", cs[m * i + j], want[j], wh, st.pc)
        for j in range(m) if angles else [m - 1]:
            chk.eq("the padded control is zero", cs[m * n + j], T.ZERO, wh, st.pc)
    written(chk, r, d, path, wh, lab)
    chk.must("exporting changes nothing in the problem", not any(vkey(v) != vkey(attrs.get(k)) for k, v in st.heap[r.q.loc].attrs.items()) and all(deep(it, st, r.attr(k)) == before[k] for k in LISTS), wh, lab)
    chk.used(it)


def mee(r, x):
    """modified equinoctial elements by the analysed specification of C01"""
    s = r.st.fork()
    f = "kep2mee" if r.elements == "keplerian" else "mee_with_a2mee"
    v = r.w.call(r.w.spec("elements", f), [r.w.arr(s, x)], s)
    return list(r.w.elems(s, v))


def ext_calls(st, n0, name):
    out = []
    for e in st.events[n0:]:
        if e[1] == "call" and getattr(e[2][0], "path", None) == name:
            out.append(e)
        elif e[1] == "call" and getattr(e[2][0], "name", None) == name:
            out.append(e)
    return out


def written(chk, r, d, path, wh, lab):
    it, st = r.it, r.st
    opens = ext_calls(st, r.n0, "open") + ext_calls(st, r.n0, "builtins.open")
    dumps = ext_calls(st, r.n0, "json.dump")
    strs = ext_calls(st, r.n0, "json.dumps")
    if path is None:
        chk.must("without a path no file is touched", not opens and not dumps, wh, lab)
        return
    if not chk.must("the result is written to the given file", len(opens) == 1 and opens[0][2][1][:1] == (path,) and (opens[0][2][1][1:2] + (opens[0][2][2].get("mode"),))[0] in ("w", "w+", "wt"), wh, f"{[o[2][1] for o in opens]} ({lab})"):
        return
    ev = dumps or strs
    if not chk.must("the result is encoded once", len(dumps) + len(strs) == 1, wh, f"{len(dumps)} json.dump, {len(strs)} json.dumps ({lab})"):
        return
    pc, kind, data, mod, fn, line = ev[0]
    chk.must("what is written is the exported data", vkey(data[1][0]) == vkey(d), f"{mod.replace('.', '/')}.py: {fn} (line {line})", lab)
    chk.holds("the result is written whenever a path is given", pc, wh, st.pc)
    after = [e for e in it.mutations]
    handle = [x for x in (data[1][1:] if dumps else ())] + [v for k, v in data[2].items() if k == "fp"]
    if dumps:
        chk.must("the encoded result goes to the opened file", any(mentions_open(h) for h in handle), wh, f"{[str(h)[:80] for h in handle]} ({lab})")
    else:
        ws = [e for e in st.events[r.n0:] if e[1] == "call" and isinstance(e[2][0], Opq) and e[2][0].name == "attr" and e[2][0].args[1] == "write"]
        chk.must("the encoded result goes to the opened file", len(ws) >= 1 and mentions_open(ws[0][2][0].args[0]) and "json.dumps" in str(ws[0][2][1]), wh, lab)
    encoder(chk, r, data[2].get("cls"), d, wh)


def mentions_open(h):
    return "open" in str(h)


def encoder(chk, r, cls, d, wh):
    """arrays among the exported data need the encoder"""
    from sa.loops import reachable
    from sa.interp import ArrC
    it, st = r.it, r.st
    arrays = [l for l in reachable(d, st) if isinstance(st.heap[l], ArrC)]
    if not arrays:
        chk.ok("exported data are encodable", wh)
        return
    if not chk.must("exported arrays are encodable", isinstance(cls, Cls), wh, "arrays are handed to the JSON encoder without an encoder class for them"):
        return
    s = st.fork()
    it.raises.clear()
    a = it.new_array(s, (2, 2), [S(f"v{i}") for i in range(4)])
    m = cls.lookup("default")
    if not chk.must("exported arrays are encodable", m is not None, wh, "the encoder class has no default method"):
        return
    q = it.call(cls, [], {}, s)
    out = it.call(it.getattr(q, "default", s), [a], {}, s)
    x = it.models.as_nested(it, out, s)
    chk.must("exported arrays are encoded as lists of the same numbers", x is not None and isinstance(out, Ref) and x[0] == (2, 2) and [vkey(v) for v in x[1]] == [vkey(S(f"v{i}")) for i in range(4)],
             f"{cls.mod.replace('.', '/')}.py: {cls.name}.default", str(out)[:120])
