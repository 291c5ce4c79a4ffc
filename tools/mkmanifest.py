#!/usr/bin/env python3
"""Regenerates MANIFEST.json from vlib/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib.props import PROPS
checks = []
for p, c in sorted(PROPS.items()):
    if c["level"] == "proof":
        tech = "contract-based deductive verification: VC generation from the LLVM IR of the real sources, discharged by z3/cvc5; native differential as replay"
        note = c.get("note", "Every obligation generated from the current sources is discharged for all inputs; trusted: the VC generator, clang's front end, the solvers, the library contracts listed in the evidence. A bounded native differential runs beside it.")
    else:
        tech = c.get("tech", "bounded stand-in: native differential of the compiled code against an independent executable specification")
        note = c.get("note", "Bounded: seeded cases only, never counted as proved.")
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                       technique=tech, level=c["level"], level_note=note))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[],
         notes="No hooks: the proof units and the native differential compile /repo's sources as they are.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
