#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lvc/props.py and properties.jsonl."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lvc")
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3-vt lvc/check.py %s --tier quick" % i, thorough_cmd="python3-vt lvc/check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=p.get("technique", "contract-based deductive verification of the real code (LLVM IR of /repo's headers, verification conditions discharged by z3)"),
        level=p.get("level", "proof"), level_note=p.get("note", "") + " Assumes: clang's C++ to IR translation, the lvc condition generator and z3 are right; element operations do not throw; allocation succeeds; lengths below 2^56. A native driver over the same operations runs beside the proof as a bounded search for a failing input and stands in, labelled bounded, for any unit the verifier cannot decide."))
m = dict(version=1, setup_cmd="python3-vt lvc/check.py --selftest", checks=checks,
    not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in PROPS],
    notes="No hooks in /repo. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
