"""writes MANIFEST.json from the checks present (development helper)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "value-graph static analysis (gated normal forms of the source compared with textbook specification)"
LS = "loop summary by optimistic value numbering (relational static analysis of the propagation loop)"
EF = "effect / alias analysis over the value graph of all configurations"
TECH = {
    "C01": VG, "C02": VG, "C03": "static range analysis of every inverse-trigonometric call site", "C04": VG, "C06": VG, "C07": VG + "; symbolic differentiation of the analysed code",
    "C08": LS + " with argument-role tracing", "C09": "Butcher-tableau extraction from the value graph, order conditions decided exactly",
    "C11": LS + "; " + VG, "C12": "path-wise equivalence of Boolean value graphs", "C13": LS, "C14": LS, "C15": LS, "C16": LS + "; simulation relation with a reference automaton",
    "C17": LS + "; simulation relation with a reference automaton", "C18": LS, "C19": LS, "C20": VG, "C21": VG + " with opaque ephemeris calls",
    "C22": EF, "C23": "path analysis of the raising conditions of constructors, setters and solve", "C24": VG, "C25": VG, "C26": EF + "; frame argument on the attributes later calls read", "C27": VG,
    "C29": "definite-assignment, attribute and call-signature analysis over all feasible paths", "C30": "name resolution over the package and def-use tracing from histories to plot calls",
    "C31": "path-sensitive non-zero analysis of every division site (sign analysis over the value graph)",
    "C32": "dataflow into print calls; dependence analysis (non-interference of verbosity) over the loop summary",
}
NOTE = {
    "*": "Every obligation is decided from the current source of /repo for all inputs (real arithmetic, within the stated assumptions of the evidence file); trusts the analyser in /verif/sa and its models of numpy/sympy/scipy/matplotlib calls.",
}
NA = {
    "N01": "convergence of the closed loop is a property of a nonlinear dynamical system over unbounded trajectories; no static argument on the source in reach bounds it (Q-law has no general convergence proof)",
    "N02": "propagation accuracy depends on run-time states, step sizes and rounding; the scheme's order is decided by C09, but no sound static bound on the global error is in reach",
    "N03": "run time and figure legibility are quantities of execution (machine, sympy code generation), not decidable from the source",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f[0] == "c" and f[1:3].isdigit()}
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=[], not_applicable=[], notes="All checks are static: they parse /repo's current source on every run, nothing of /repo is executed. See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        m["checks"].append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --tier thorough", technique=TECH[i], level="other", level_note=NOTE.get(i, NOTE["*"])))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
