"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C12": "runtime bounds-check sanitizer and differential schedule stress monitor",
    "C25": "runtime lifecycle monitor with fault injection",
}
NOTE = ("Oracles observe executions of the real code under generated workloads; the property is judged on the "
        "executions produced (counts and distinct cases are in the evidence), not for every possible input.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {pid}",
                           technique=TECH.get(pid, "runtime monitoring against a reference oracle under generated workloads and sanitized kernels"),
                           level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=pid, reason="no monitor has been built for it yet"))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
