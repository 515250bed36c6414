#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DONE = open(os.path.join(V, "tools/claimed.txt")).read().split()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Symbolic execution of the LLVM IR of /repo's crate with Z3 (engine/), see DESIGN.md. No hooks in /repo are needed: the harnesses use the public API.",
}
NOTE = ("Bounded: every branch and assertion of the real code (LLVM IR regenerated from /repo on each run) is decided by Z3 for all numbers and choices in the "
        "templates of %s; templates, ranges and which cases were explored exhaustively are in the evidence file. Trusts rustc, LLVM, Z3, the executor "
        "(cross-checked against native runs on every run) and the oracle; every counterexample is replayed natively before it is reported.")
for p in props:
    i = p["id"]
    if i in DONE:
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": "symbolic execution of the compiled LLVM IR with Z3 (bounded), counterexamples replayed natively",
            "level": "other",
            "level_note": NOTE % {"P14": "harness_cli/src/main.rs", "P16": "harness_io/src"}.get(i, "harness/src/%s.rs" % i.lower()),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
