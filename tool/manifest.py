#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = ("Bounded: symbolic execution of the LLVM IR rustc emits for /repo's current source; every assertion on every path decided by Z3/cvc5 "
        "for all values within: %s. Trusted: rustc's optimizer, the IR interpreter (sampled paths replayed natively every run), the solvers; "
        "see DESIGN.md for stubs and what is outside the bounds.")
m = {
    "version": 1,
    "setup_cmd": "python3 tool/check.py setup",
    "checks": [
        {
            "property": p, "quick_cmd": "python3 tool/check.py check %s quick" % p, "thorough_cmd": "python3 tool/check.py check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the compiled code (LLVM IR) with SMT (Z3/cvc5), counterexamples replayed natively",
            "level": "model_checking", "level_note": NOTE % PROPS[p]["bounds"],
        } for p in ids if p in PROPS
    ],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in ids if p not in PROPS],
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
