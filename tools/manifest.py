#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/table.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks.table import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": "TLA+ specification checked with TLC; states and behaviours it generates replayed through the real code"
                     + (", traces recorded from the real code checked by TLC" if PROPS[i].get("trace_spec") else ""),
        "level": "model_checking",
        "level_note": PROPS[i].get("note",
            "TLC checks the specification within the bounds of its configuration; every generated vector is replayed "
            "through the real code with random real-valued concretisations. Trusts TLC, the harness's arithmetic, and "
            "that the sampled concretisations are representative."),
    })
m = {
    "version": 1,
    "setup_cmd": "for c in harness maps; do (cd $c && CARGO_TARGET_DIR=/verif/target cargo build --release --offline) || exit 1; done",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "its check is not built yet")} for i in ids if i not in PROPS],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
