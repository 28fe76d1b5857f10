"""Development self-test: apply source edits to a scratch copy and run checks against it.
python3 tools/selftest.py [name-substring ...]      (not used by any check)
Each entry: (name, file, old, new, properties expected to report)  - empty list: must stay quiet everywhere in `also`."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from edits import BUGS, SAME


def one(e):
    kind, name, edits, props = e
    d = tempfile.mkdtemp(prefix="st_")
    try:
        shutil.copytree("/repo/pyqlaw", d + "/pyqlaw", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = d + "/pyqlaw/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return f"?? {name}: text not found in {f}: {old[:60]}"
            open(p, "w").write(s.replace(old, new, 1))
        out = []
        for c in props:
            r = subprocess.run(["python3-vt", "check.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), capture_output=True, text=True, timeout=1500)
            good = r.returncode == (1 if kind == "bug" else 0)
            if not good or "-v" in sys.argv:
                out.append(f"{'ok ' if good else '!! '}{kind} {name} {c}: rc={r.returncode}\n    " + "\n    ".join((r.stdout + r.stderr).strip().split("\n")[-(8 if not good else 2):])[:1500])
        return "\n".join(out)
    finally:
        shutil.rmtree(d)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [("bug",) + b for b in BUGS] + [("same",) + b for b in SAME]
    todo = [t for t in todo if not sel or any(s in t[1] or s in t[3] for s in sel)]
    if sel:
        cs = [s for s in sel if s[0] == "C" and s[1:].isdigit()]
        if cs:
            todo = [(k, n, e, [p for p in ps if p in cs]) for k, n, e, ps in todo]
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(one, todo):
            if r:
                print(r, flush=True)
    print(len(todo), "edits tried")


main()
