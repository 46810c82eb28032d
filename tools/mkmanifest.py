#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json
import os
import sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
from vp.checks import CHECKS, TECH  # noqa: E402

NA = {
    "N01": "equisatisfiability quantifies over all assignments of clause sets of unbounded size generated from runtime data; no dataflow or type-level "
           "argument in reach bounds it (it needs a semantic proof or solving, which is another family)",
    "N02": "equality of the instance read back with the one written depends on the values carried through text; the static parts of it (grammar of the "
           "written lines, operators, what lines mean when read, coverage of constraint kinds) are P02, P03, P04 and I01",
    "N03": "soundness of the vendored CDCL engines is a property of their search over runtime data; the wrapper's part of it is S01-S08",
    "N04": "preservation of models and costs quantifies over assignments; the static parts (coverage of kinds, fresh variables) are I01-I03",
    "N05": "acceptance by a proof checker depends on the derivations carried out on runtime data; the id discipline is L01",
    "N06": "optimality of the search result depends on the sequence of solver answers and on the totalizer's semantics",
    "N07": "bounded response to an interrupt depends on the running time of the vendored search loops",
}
props = [json.loads(x) for x in open(os.path.join(D, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = TECH[i]
        checks.append({"property": i, "quick_cmd": f"python3 -m vp {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 -m vp {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it (yet); see DESIGN.md")})
m = {"version": 1, "setup_cmd": "python3 -m vp setup", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current sources (rustc MIR of every workspace crate, clang's AST of the C++ glue); "
              "nothing of /repo is executed. No hooks in /repo are needed."}
with open(os.path.join(D, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1, ensure_ascii=False)
    h.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
