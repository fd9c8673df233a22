#!/usr/bin/env python3
# Regenerates MANIFEST.json from the check registry (driver/checks.py) and properties.jsonl.
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "driver"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = "symbolic execution of the repository's code compiled to LLVM bitcode (flysym) with Z3 deciding every branch and assertion; counterexamples replayed natively under ASan/UBSan"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        b = c.get("bounds", {})
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough", evidence_file=f"evidence/{i}.json", technique=c.get("technique", TECH), level="model_checking",
            level_note=("Bounds: " + b.get("quick", "see evidence") + ". Thorough: " + b.get("thorough", "same bounds, more of them") + ". Outside: " + c.get("outside", "-") + (" Assumptions: " + "; ".join(c["assumptions"]) if c.get("assumptions") else ""))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na, notes="One engine (engine/, a symbolic executor for LLVM bitcode on top of Z3) decides every check; harnesses in harness/ state the properties, rt/ holds the models of the environment. See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
