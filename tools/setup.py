#!/usr/bin/env python3
"""setup_cmd: nothing is installed; check that the tools the checks call are there."""
import shutil, subprocess, sys
need = ["clang++-18", "opt-18", "llvm-cxxfilt-18", "cvc5"]
bad = [x for x in need if not shutil.which(x)]
try:
    import z3  # noqa
except ImportError:
    bad.append("z3 python module (run with python3-vt)")
if bad:
    print("missing: " + ", ".join(bad))
    sys.exit(1)
print("tools present")
