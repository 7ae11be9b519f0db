"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json
T = {}
exec(open("/verif/tools/levels.py").read())
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        lv, tech, note = T[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Contracts: /verif/contracts, specifications: /verif/specs, verifier: /verif/pyvc, concrete cross-checks: /verif/oracles. See DESIGN.md."},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
