#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import registry as R
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
NA = {}
for p in props:
    pid = p["id"]
    if pid in R.PROPS:
        q = R.PROPS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique="symbolic execution of the library's LLVM IR with a SAT-based bit-vector solver" + (q.get("tech") or ""),
            level="model_checking",
            level_note="Holds for every value of the solver-chosen inputs within: " + q["bounds"] + ". Outside: " + q["outside"] + ". " + (q.get("note") or "") + " Trusts clang's IR, the executor (each run re-runs sampled paths natively and re-decides part of the unsat answers with z3)."))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no check has been built for it yet")))
json.dump(dict(version=1, setup_cmd="make -s -j8 -C engine", checks=checks, not_applicable=na,
    notes="No hooks in /repo. The only commits there are fix: commits (see known_findings.json)."), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not:", [x["property"] for x in na])
