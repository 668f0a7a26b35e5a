"""writes MANIFEST.json: a property is claimed iff vp/checks/<id>.py exists"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "vp/checks/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": "runtime monitoring: online reference-model monitors over seeded workloads on the real code",
            "level": "exploration",
            "level_note": "Every judged execution is compared with an independent reference model (see DESIGN.md, section %s); nothing is claimed for executions not run. Trusts numpy, torch and the reference model." % i})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo; the only commits there are fix: commits, listed in KNOWN_FINDINGS.txt."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
