#!/usr/bin/env python3
"""Setup: nothing is prepared in advance, every check builds what it needs from /repo. Reports missing tools."""
import shutil, sys
missing = [t for t in ("clang++-18", "opt-18", "llvm-cxxfilt-18", "g++", "python3-vt", "z3", "cvc5", "R", "Rscript") if not shutil.which(t)]
print("missing tools: " + ", ".join(missing) if missing else "all tools present")
sys.exit(0)
