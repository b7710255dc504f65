"""rewrites MANIFEST.json from the table of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from claims import CLAIMS, NOT
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick", "thorough_cmd": f"python3 tools/check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json", **c})
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the verifier reads the MIR the compiler produces from the unmodified source. Known findings: known-findings.txt."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
