# Writes /verif/MANIFEST.json from vf/table.py and properties.jsonl.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import table
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = table.PROPS.get(i)
    if c is None:
        na.append({"property": i, "reason": table.NOT_APPLICABLE.get(i, "contracts for this property are not built yet")})
        continue
    checks.append({
        "property": i, "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "contract-based deductive verification: obligations generated from the class files of /repo, discharged by z3"),
        "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())'", "checks": checks, "not_applicable": na,
     "notes": "Each check recompiles /repo, regenerates every obligation from the class files, discharges them, and cross-checks the contracts on real executions (bounded, labelled so)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
