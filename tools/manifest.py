#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and the checks present in props/
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(root + "/tools/techniques.json"))
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line); i = p["id"]
    if os.path.exists(f"{root}/props/{i}.cpp"):
        t = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": "property-based testing: " + t.get("t", "generated inputs and histories against an explicit oracle"),
            "level": t.get("level", "exploration"),
            "level_note": t.get("n", "Random search with shrinking; establishes no absence. Trusts the harness' own reference and the sanitizers of clang 18, 64-bit little-endian.")})
    else:
        na.append({"property": i, "reason": "check still being built"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo are used: every check observes through the public API."}, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
