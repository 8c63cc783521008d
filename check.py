#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Compiles /repo's current headers to LLVM bitcode, generates the proof
obligations of PROPERTY's contracts for every instantiation and discharges
them.  Exit 0: all obligations discharged (or listed as known findings);
exit 1 with a VIOLATION line: an obligation failed."""
import os
import sys

VT = "/opt/veriftools/pyvenv/bin/python3"
if "z3" not in sys.modules:
    try:
        import z3  # noqa: F401
    except ImportError:
        os.execv(VT, [VT] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vcg import checker  # noqa: E402

if __name__ == "__main__":
    sys.exit(checker.main(sys.argv[1:]))
