"""Write DESIGN.md from tools/design.txt (text by section), the check modules and seeded/*/meta.json"""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

sections, name = {}, None
for line in open(os.path.join(here, "tools", "design.txt")):
    if line.startswith("@@ "):
        name = line[3:].strip()
        sections[name] = []
    elif name:
        sections[name].append(line.rstrip("\n"))
sections = {k: "\n".join(v).strip() for k, v in sections.items()}

out = [sections["head"], "", "## Properties", ""]
for p in props:
    pid = p["id"]
    mod = importlib.import_module("vf.checks." + pid.lower())
    out += ["### {}: {}".format(pid, p["title"]), ""]
    tech = getattr(mod, "TECHNIQUE", "reference-model monitor over executions of the real code")
    out += ["*Deciding method:* {} (level: {}).".format(tech, mod.LEVEL), ""]
    out += ["*Executed and observed:* " + mod.RULE + ".", ""]
    out += ["*Oracle:* " + sections[pid].replace("\n", " "), ""]
    if getattr(mod, "NOTE", None):
        out += ["*Bounds:* " + mod.NOTE, ""]
    out += ["*Size:* {} random cases in the quick tier, {} in the thorough tier{}; the run is inconclusive unless "
            "all of these were seen: {}.".format(
                mod.CASES["quick"], mod.CASES["thorough"], ", plus the fixed ones" if hasattr(mod, "fixed") else "",
                ", ".join(mod.REQUIRED)), ""]
    out += ["*Beyond the tests:* " + p["why_tests_cant"], ""]
out += ["## Planted bugs and the checks that catch them", "", sections["planted"], "",
        "| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
also = {}
for line in sections["also"].split("\n"):
    if line.strip():
        k, v = line.split(None, 1)
        also[k] = v
seeded = os.path.join(here, "seeded")
for d in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
    m = json.load(open(os.path.join(seeded, d, "meta.json")))
    out.append("| {} | {} | {} | {} |".format(
        d, m["property"], " ".join(m["needs"].split()), also.get(d, m["property"])))
out += ["", sections["tail"], ""]
with open(os.path.join(here, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
