#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of decided properties."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
done = json.load(open(os.path.join(V, "levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = {
    "P24": "The compiler decides this: a program with a wrong size has no code to execute symbolically. The check that the right sizes are accepted is implied by every other check's harness being compiled.",
}
checks = []
for i in ids:
    if i in done:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of rustc's LLVM IR of the real code, decided by Z3 (bit-vectors)",
                           level="model_checking", level_note=done[i]))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none", enable="no hooks: the checks use sqrid's public API only", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=i, reason=na.get(i, "No check yet.")) for i in ids if i not in done],
         notes="check.py PROPERTY TIER; see DESIGN.md. known_findings.txt lists findings and fixes.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
