#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, tools/specs.py and the reasons below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import specs
NA = {
 "B01": "the bindings need pybind11 headers and the Python C API, neither of which can be compiled here (pybind11 is not installed) nor executed symbolically; nothing of this layer is in the built library",
}
PENDING = "its check is not built yet"
TECH = "symbolic execution of the compiled repository code (LLVM IR) with Z3 deciding every path's assertions; counterexamples replayed natively"
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in specs.PROPS and p not in NA:
        s = specs.PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": TECH, "level": "model_checking",
                       "level_note": "holds for every value within: %s. Outside: %s. Trusts: clang front end, the engine's library models (cross-checked by replaying path witnesses natively), Z3%s." % (
                           s["bounds"], s.get("outside", ""), "; ".join([""] + s.get("assumptions", [])))})
    else:
        na.append({"property": p, "reason": NA.get(p, PENDING)})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo/src as it is. Repairs are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
