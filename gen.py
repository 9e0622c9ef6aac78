#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/*.py"""
import json, os
import specs
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, P in sorted(specs.PROPS.items()):
        assert len(P["title"]) <= 80, pid
        f.write(json.dumps({"id": pid, "title": P["title"], "statement": P["statement"], "quantifier": {"over": P["over"], "text": P["quant"]}, "why_tests_cant": P["why"],
                            "anchors": {"files": P["files"], "mechanism": [{"name": a, "where": b} for a, b in P["mech"]]}}) + "\n")
T = "symbolic execution of the compiled code (LLVM IR) with SMT solving (z3/cvc5), counterexamples replayed natively"
N = ("Exhaustive within the stated bounds: every path of the encoded functions, all values, decided by exact polynomial algebra or an SMT solver; reported violations are replayed on the "
     "natively compiled code. Trusted: clang front end, the executor in engine/, the Kokkos/MPI/IO stand-ins in shim/, z3 and cvc5. Bounds: ")
na = {d["property"] for d in specs.NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": specs.NOT_APPLICABLE,
     "notes": "check.py <id> [--tier thorough]; a counterexample is run again with check.py --replay FILE. See DESIGN.md."}
for pid, P in sorted(specs.PROPS.items()):
    if pid in na:
        continue
    m["checks"].append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                        "technique": P.get("technique", T), "level": P["level"], "level_note": N + (P.get("bounds") or "none") + (". " + P["note"] if P["note"] else "")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
