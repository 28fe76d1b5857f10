"""python3-vt check.py C01 [--tier quick|thorough]   static check of one property against /repo"""
import argparse
import importlib
import os
import resource
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
import traceback
from sa.decide import Check, Undecided


MEMORY = 12 << 30


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = Check(a.property, a.tier, seed)
    rc = [2]

    def run():
        try:
            mod = importlib.import_module("checks." + a.property.lower())
            mod.run(chk)
            rc[0] = chk.finish()
        except BaseException as e:
            if chk.violations:
                rc[0] = chk.finish()
                return
            traceback.print_exc()
            print(f"CHECK-ERROR property={a.property} {type(e).__name__}: {str(e)[:500]}")

    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()
