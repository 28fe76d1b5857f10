"""Development self-test of the analyser's numpy/python vocabulary: every snippet
is evaluated by the analyser on symbols, the resulting value number is evaluated
at sample points, and compared with what Python computes for the same snippet.
(No code of the analysed package is involved; not used by any check.)

    python3-vt tools/modeltest.py [substring]"""
import math, os, random, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("VERIF_REPO", "/repo")
import numpy as np
from sa import terms as T, gated as G
from sa.interp import ArrRef, Ref, Opq, NAN
from checks.common import World, S

SNIPPETS = open(os.path.join(HERE, "tools", "modeltest_snippets.py")).read()
FN = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log, "abs": abs, "acos": math.acos, "asin": math.asin, "atan": math.atan,
      "atan2": math.atan2, "floor": math.floor, "pow": lambda a, b: a ** b, "int": math.trunc, "round": lambda x, n=0: round(x, int(n)),
      "float32": lambda x: float(np.float32(x)), "float16": lambda x: float(np.float16(x)), "sinc": np.sinc, "arcsinh": math.asinh,
      "arctanh": math.atanh, "arccosh": math.acosh, "tan": math.tan}


def pval(p, env):
    s = 0.0
    for m, c in p.terms.items():
        t = float(c)
        for i, e in m:
            t *= aval(T._atoms[i], env) ** float(e)
        s += t
    return s


def aval(a, env):
    if a.kind == "sym":
        return math.pi if a.name == "pi" else math.inf if a.name == "inf" else env[a.name]
    if a.kind == "prime":
        return float(a.name if isinstance(a.name, int) else a.args[0] if a.args else a.extra)
    if a.kind == "sum":
        return pval(a.poly, env)
    return FN[a.name](*[pval(x, env) if hasattr(x, "terms") else x for x in a.args])


def val(v, env):
    while isinstance(v, G.Node):
        k, d = v.var.kind, v.var.data
        if k != "sign":
            raise KeyError(f"gate {k} {d}")
        x = pval(d, env)
        s = 0 if abs(x) < 1e-13 else 1 if x > 0 else -1
        v = v.kids[s + 1]
    if v is NAN:
        return math.nan
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if hasattr(v, "terms"):
        return pval(v, env)
    raise KeyError(f"value {v!r}"[:120])


def flat(x):
    if isinstance(x, np.ndarray):
        return [v.item() for v in x.ravel()]
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    return [x.item() if isinstance(x, np.generic) else x]


def flat_model(it, st, v, env):
    while isinstance(v, G.Node) and any(isinstance(l, (ArrRef, Ref, G.Tup)) for l, _ in G.leaves(v)):
        x = pval(v.var.data, env)
        v = v.kids[(x > 0) - (x < 0) + 1]
    if isinstance(v, ArrRef):
        return [val(x, env) for x in it.arr_elems(st, v)]
    if isinstance(v, (Ref, G.Tup)):
        return [y for x in it.iterate(v, st, None) for y in flat_model(it, st, x, env)]
    return [val(v, env)]


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    w = World()
    it = w.it
    it.load_source("modeltest_snippets", SNIPPETS, "modeltest_snippets.py")
    ns = {}
    exec(SNIPPETS, ns)
    bad = n = 0
    rnd = random.Random(1)
    for name, f in list(ns.items()):
        if not name.startswith("t_") or pat not in name:
            continue
        n += 1
        T.reset_facts()
        k = f.__code__.co_argcount
        syms = [S(f"x{i}") for i in range(k)]
        st = w.state()
        g = it.state0.heap[it.modules["modeltest_snippets"].env].vars[name]
        try:
            out = it.call(g, syms, {}, st)
        except Exception as e:
            print("!!", name, "model:", type(e).__name__, str(e)[:200])
            bad += 1
            continue
        for trial in range(6):
            xs = [rnd.uniform(-3, 3) for _ in range(k)] if trial else [1.0, -2.0, 0.5, 3.0, 0.25, 2.0][:k]
            try:
                want = flat(f(*xs))
            except Exception as e:
                if trial == 1:
                    print("??", name, "python:", type(e).__name__, e)
                continue
            try:
                got = flat_model(it, st, out, {f"x{i}": x for i, x in enumerate(xs)})
            except Exception as e:
                print("!!", name, "value:", type(e).__name__, str(e)[:200])
                bad += 1
                break
            ok = len(want) == len(got) and all(
                a == b if isinstance(a, str) or a is None else (math.isnan(a) and isinstance(b, float) and math.isnan(b)) or abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(a)))
                for a, b in zip(want, got))
            if not ok:
                print("!!", name, xs, "python", want[:8], "model", got[:8])
                bad += 1
                break
    print(n, "snippets,", bad, "bad")


main()
