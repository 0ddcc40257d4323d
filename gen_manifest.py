"""Writes MANIFEST.json: every property with a checks/<ID>.py is claimed. python3 gen_manifest.py"""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(D, "levels.json")))
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(D, "checks", i + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": NOTES[i][0], "level": "exploration", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": NOTES.get("na", {}).get(i, "not claimed yet: the generated-input check for this property is still being built")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis, cloudnetpy, netCDF4\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public functions and read the files they write. Properties are decided by property-based testing (Hypothesis) against independent oracles; see DESIGN.md."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not claimed")
