"""Write MANIFEST.json from the checks present in vf/checks"""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(here, "vf", "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    mod = importlib.import_module("vf.checks." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "bash run.sh " + pid,
        "thorough_cmd": "bash run.sh {} --tier thorough".format(pid),
        "evidence_file": "evidence/{}.json".format(pid),
        "technique": getattr(mod, "TECHNIQUE", "runtime monitoring: executions of the real code judged "
                                               "by an independent reference-model oracle"),
        "level": mod.LEVEL,
        "level_note": getattr(mod, "NOTE", "Random and boundary workloads (" + mod.RULE + "); held on "
                              "what was executed, no claim beyond it. Trusts numpy, cf_units, netCDF4 "
                              "and the reference model in vf/."),
    })
m = {"version": 1, "setup_cmd": "bash run.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors observe through the public interface, files and the "
              "operating system. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
