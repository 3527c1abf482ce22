"""Writes MANIFEST.json from properties.jsonl and the table of built checks."""
import json, subprocess
ROOT = "/verif"
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
TECH = "deterministic simulation with fault injection (seeded search, replayable plans)"
exec(open(f"{ROOT}/tools/checks.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
    elif i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH + ": " + CHECKS[i][0],
            "level": "exploration",
            "level_note": CHECKS[i][1],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": NOTES}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
