#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import plan  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    k = p["id"]
    if k in plan.PROPS:
        q = plan.PROPS[k]
        checks.append({
            "property": k,
            "quick_cmd": f"python3 driver/check.py {k} --tier quick",
            "thorough_cmd": f"python3 driver/check.py {k} --tier thorough",
            "evidence_file": f"evidence/{k}.json",
            "technique": "bounded symbolic execution of the compiled LLVM IR, assertions decided by SMT (z3, cvc5)",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: " + q["bounds"] + ". Outside: " + (q.get("outside") or "nothing further")
            + ". Trusts rustc/LLVM code generation to IR, the executor in /verif/engine (cross-checked with native runs) and the SMT solvers.",
        })
    else:
        na.append({"property": k, "reason": plan.NOT_APPLICABLE.get(k, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "cd engine && RUSTFLAGS=-Awarnings cargo build --release --offline -q",
    "hooks": {
        "guard": "cfg ibig_verif (with cfg ibig_verif_small for lowered thresholds, and force_bits=\"8\" for the 8-bit word configuration)",
        "enable": "RUSTFLAGS='--cfg ibig_verif [--cfg ibig_verif_small] [--cfg force_bits=\"N\"]'; driver/check.py builds /verif/harness against /repo this way",
        "source_commits": plan.HOOK_COMMITS,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Every check rebuilds the harness and the library from /repo and removes its build directory.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
