"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(H, "tools", "techniques.json")))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    if os.path.exists(os.path.join(H, "vp", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"./check {pid} --tier quick", thorough_cmd=f"./check {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique="runtime monitoring: " + T.get(pid, "oracles over executions of the real code under generated workloads"),
                           level="exploration",
                           level_note="Held on every execution observed (configurations, inputs and call sequences drawn from the seed; counts in the evidence file); unobserved inputs are not covered. Trusts numpy, scipy, discretize, geoana, choclo and the matrix solvers."))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all monitors wrap the public API from /verif, so the checked code is the code as shipped. Known and repaired defects: known_findings.json."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
