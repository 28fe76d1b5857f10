"""set-up: nothing to build; verifies that the analyser and the interpreter are usable"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sympy  # noqa: F401  (only used to factor polynomials)
from sa import decide  # noqa: F401
print("analyser ready")
