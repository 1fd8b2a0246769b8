#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the rules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "checker"))
sys.setrecursionlimit(100000)
import rules

NA = {
    "C36": "Needs numeric evaluation of iterated cross products and sorted float vectors (golden-ratio coordinates "
           "through transforms); a static argument about the source does not bound the values, so only the linkage "
           "of its users to one set of faces is claimed (C34).",
    "C37": "A statement about spherical geometry of the tract boxes under an arbitrary projection (lsst.afw WCS, not "
           "in the source): no sound static argument over the repository bounds it.",
    "C38": "Needs the geometry of the tract boxes and of the WCS library on the sky; what is static about it (every "
           "tract is visited, results are passed on unchanged) is claimed in C14.",
    "C39": "Exact agreement on boundaries depends on double rounding of library functions (fmod, atan2, HEALPix); "
           "the static analysis reasons over the reals.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid in rules.SPECS:
        s = rules.SPECS[pid]
        cmd = "python3 checker/run.py --property %s" % pid
        checks.append({
            "property": pid, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
            "evidence_file": "evidence/%s.json" % pid,
            "technique": s.get("technique") or "whole-package abstract interpretation of the source (gated value "
                         "numbering); obligations decided on normal forms",
            "level": "other",
            "level_note": s.get("note") or "Every path of the functions analysed, for all inputs; real arithmetic; "
                          "trusts the models of the LSST and standard libraries in checker/models*.py."})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No check yet.")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q checker", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: nothing of lsst/skymap is imported or run by any check."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
