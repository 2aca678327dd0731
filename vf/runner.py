"""
Entry point: python -m vf.runner <property-id> [--tier T] [--replay FILE]
"""
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter

from vf.core import VERIF, Ctx, load_known, run_one

#: No verdict of a check depends on these; they only bound a run that hangs.
CAPS = {"quick": 240.0, "thorough": 3000.0}
WATCHDOG = {"quick": 600.0, "thorough": 5400.0}


def _silence():
    """Send what the code under test prints to /dev/null"""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def _worker(w, n, mod, seed, tier, root, plan, deadline, conn):
    try:
        _silence()
        out = {
            "status": Counter(), "counters": Counter(), "distinct": set(), "samples": [],
            "viol": [], "errors": [], "done": 0, "capped": 0, "slow": (0, None),
        }
        for i in range(w, len(plan), n):
            if time.monotonic() > deadline:
                out["capped"] += 1
                continue
            name, fn = plan[i]
            ctx = Ctx(mod.ID, seed, name, tier, root)
            t0 = time.monotonic()
            status, key, msg = run_one(mod, ctx, fn)
            dt = time.monotonic() - t0
            if dt > out["slow"][0]:
                out["slow"] = (dt, name)
            out["done"] += 1
            out["status"][status] += 1
            out["counters"].update(ctx.counters)
            out["distinct"].update(ctx.distinct)
            if len(out["samples"]) < 4:
                out["samples"].extend(ctx.samples[:2])
            if status == "violation" and len(out["viol"]) < 200:
                out["viol"].append((key, msg, name))
                if os.environ.get("VF_STOP"):  # for trying out many changes
                    break
            elif status == "error" and len(out["errors"]) < 5:
                out["errors"].append((name, msg))
        conn.send(out)
    except BaseException:  # noqa
        try:
            conn.send({"crash": traceback.format_exc()})
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def build_plan(mod, tier):
    plan = []
    if hasattr(mod, "fixed"):
        plan.extend(("fixed:" + name, fn) for name, fn in mod.fixed(tier))
    plan.extend((str(i), mod.case) for i in range(mod.CASES[tier]))
    return plan


def main():
    argv = sys.argv[1:]
    if argv == ["--setup"]:
        # Nothing is built ahead of a check: see that the environment works
        from vf import env

        env.setup()
        print("environment ready")
        return 0
    pid = argv.pop(0).upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--replay":
            replay = argv.pop(0)
        elif a == "--only":
            only = argv.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()

    from vf import env

    env.setup()
    try:
        mod = importlib.import_module("vf.checks." + pid.lower())
    except Exception as e:  # noqa
        from vf.core import from_repo

        print(traceback.format_exc()[-3000:])
        if from_repo(e):
            path = _write_replay(pid, seed, tier, "import", "import", traceback.format_exc())
            print("VIOLATION property={} replay={}".format(pid, path))
            return 1
        return 2

    if getattr(mod, "PRELOAD", False) and "VF_SHIM" not in os.environ:
        # Start again with the file-system monitor loaded
        from vf import shim

        sys.stdout.flush()
        shim.restart()
    root = tempfile.mkdtemp(prefix="vf-{}-".format(pid.lower()))
    try:
        if replay or only:
            rec = json.load(open(replay)) if replay else {"seed": seed, "tier": tier, "case": only}
            plan = dict(build_plan(mod, rec["tier"]))
            ctx = Ctx(mod.ID, rec["seed"], rec["case"], rec["tier"], root)
            fn = plan.get(rec["case"], mod.case)
            status, key, msg = run_one(mod, ctx, fn)
            print("case {}: {} {}\n{}".format(rec["case"], status, key or "", msg or ""))
            if status == "violation":
                print("VIOLATION property={} replay={}".format(pid, replay or only))
                return 1
            return 0 if status in ("held", "skip") else 2
        return _run(mod, pid, seed, tier, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        if os.environ.get("VF_SHIM"):
            shutil.rmtree(os.path.dirname(os.environ["VF_SHIM"]), ignore_errors=True)


def _write_replay(pid, seed, tier, name, key, msg):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:60]
    path = os.path.join(d, "{}-{}.json".format(pid, safe))
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "case": name, "key": key,
                   "message": msg}, f, indent=1)
    return path


def _run(mod, pid, seed, tier, root, t0):
    plan = build_plan(mod, tier)
    deadline = t0 + getattr(mod, "CAPS", CAPS)[tier]
    n = max(1, min(getattr(mod, "WORKERS", 8), int(os.environ.get("VF_WORKERS", "0")) or os.cpu_count() or 1, len(plan)))
    mpctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(n):
        a, b = mpctx.Pipe(False)
        p = mpctx.Process(target=_worker, args=(w, n, mod, seed, tier, root, plan, deadline, b))
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    inconclusive = []
    end = t0 + getattr(mod, "WATCHDOG", WATCHDOG)[tier]
    for p, a in procs:
        left = max(0.1, end - time.monotonic())
        try:
            if a.poll(left):
                results.append(a.recv())
            else:
                inconclusive.append("watchdog: a worker gave no answer")
        except EOFError:
            inconclusive.append("a worker died without an answer")
        if p.is_alive():
            p.join(2)
        if p.is_alive():
            p.kill()
            p.join()

    status, counters, distinct = Counter(), Counter(), set()
    samples, viol, errors = [], [], []
    done = capped = 0
    slow = (0, None)
    for r in results:
        if "crash" in r:
            inconclusive.append("worker crash: " + r["crash"][-1500:])
            continue
        status.update(r["status"])
        counters.update(r["counters"])
        distinct.update(r["distinct"])
        samples.extend(r["samples"])
        viol.extend(r["viol"])
        errors.extend(r["errors"])
        done += r["done"]
        capped += r["capped"]
        slow = max(slow, r["slow"], key=lambda x: x[0])

    known = load_known(pid)
    by_key = {}
    for key, msg, name in viol:
        by_key.setdefault(key, []).append((name, msg))
    unknown = {k: v for k, v in by_key.items() if k not in known}
    known_hit = {k: v for k, v in by_key.items() if k in known}

    for name, msg in errors[:5]:
        inconclusive.append("harness error in case {}: {}".format(name, msg))
    if not unknown:
        for c in getattr(mod, "REQUIRED", ()):
            if not counters.get(c):
                inconclusive.append("monitor never reached: counter {!r} is zero".format(c))
        if len(distinct) < 1:
            inconclusive.append("no non-trivial case was observed")

    wall = time.monotonic() - t0
    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples[:6] or ["(none)"],
        "verdicts": dict(status),
        "observed": {k: counters[k] for k in sorted(counters)},
        "cases_not_started_before_time_cap": capped,
        "slowest_case_s": round(slow[0], 3),
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2),
        "violations": len(unknown),
    }
    if inconclusive:
        coverage["inconclusive"] = inconclusive[:5]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("{} [{} seed={}]: {} cases, {} distinct non-trivial, verdicts {}, {:.1f}s".format(
        pid, tier, seed, done, len(distinct), dict(status), wall))
    print("  observed: " + ", ".join("{}={}".format(k, v) for k, v in sorted(counters.items())))
    if slow[1] is not None:
        print("  slowest case {} {:.2f}s".format(slow[1], slow[0]))
    for k, v in sorted(known_hit.items()):
        print("KNOWN-FINDING: property={} key={} {} ({} cases)".format(pid, k, known[k], len(v)))
    for k in sorted(known):
        if k not in known_hit:
            print("KNOWN-FINDING: property={} key={} {} (listed; not met in this run)".format(
                pid, k, known[k]))
    for msg in inconclusive:
        print("INCONCLUSIVE: " + msg)
    if unknown:
        for k in sorted(unknown):
            name, msg = unknown[k][0]
            path = _write_replay(pid, seed, tier, name, k, msg)
            print("  [{}] {} cases; first {}: {}".format(k, len(unknown[k]), name, msg[:1800]))
            print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    if inconclusive:
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
