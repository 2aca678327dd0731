"""
Make one planted bug: python3 tools/plant.py DESCRIPTION.py

DESCRIPTION.py defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (text of demo.py), NEEDS, BREAKS.
Confirms in /repo (undone straight afterwards) that the demonstration passes without and fails with
the change and that the stable tests pass with it, and tells what the property's check says.
"""
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
COMMON = open(os.path.join(HERE, "tools", "demo_common.py")).read()
SH = """#!/bin/bash
# Run with cwd /repo: exit 0 on the unchanged tree, nonzero with the change
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 OMPI_MCA_ess_singleton_isolated=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 HDF5_USE_FILE_LOCKING=FALSE
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def undo():
    sh("git -C {} checkout -- .".format(REPO))


def main(path, check=True):
    d = runpy.run_path(path)
    assert not sh("git -C {} status --porcelain".format(REPO)).stdout.strip(), "repo not clean"
    out = os.path.join(HERE, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    for name, text in (("demo.py", d["DEMO"].lstrip("\n")), ("demo_common.py", COMMON), ("demo.sh", SH)):
        with open(os.path.join(out, name), "w") as f:
            f.write(text)
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, f, indent=1)
    ok = True
    r = sh("bash {}/demo.sh".format(out), cwd=REPO)
    if r.returncode != 0:
        print("demo FAILS on the unchanged tree:", r.stdout[-1500:])
        ok = False
    try:
        for fn, old, new in d["EDITS"]:
            p = os.path.join(REPO, fn)
            s = open(p).read()
            assert s.count(old) == 1, (fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C {} diff".format(REPO)).stdout
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        old = 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                base = set(sh("git -C {} show 022dfb2:{}".format(REPO, line[6:])).stdout.splitlines())
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
                old += line[1:] in base
        print("lines of the original repository changed:", old)
        ok &= old > 0
        r = sh("bash {}/demo.sh".format(out), cwd=REPO)
        print("demo with the change: exit", r.returncode, r.stdout.strip()[-300:])
        ok &= r.returncode != 0
        r = sh("bash /opt/vp/test.sh /tmp/plant.json")
        res = json.load(open("/tmp/plant.json"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        gone = sorted(stable - set(res["passed"]))
        print("stable tests broken:", gone)
        ok &= not gone
        props = [d["PROPERTY"]] + list(d.get("ALSO", []))
        for p in props if check else ():
            r = sh("bash run.sh " + p, cwd=HERE)
            print("check {}: exit {}".format(p, r.returncode))
            print("\n".join(x[:300] for x in r.stdout.splitlines() if x.startswith("  [") or "VIOL" in x or "INCON" in x))
    finally:
        undo()
    print("KEPT" if ok else "NOT VALID", d["ID"])


if __name__ == "__main__":
    for p in sys.argv[1:]:
        main(p)
