"""C04: an output file appears under its name only when it is complete"""
import copy
import os
import shutil
import signal
import traceback
from collections import OrderedDict

from vf import flow, shim

ID = "C04"
LEVEL = "fault_enumeration"
PRELOAD = True
TECHNIQUE = ("fault injection with a file-system event monitor (preloaded library) and a crash-consistency "
             "checker over the output paths")
RULE = ("random specifications of 1-3 files over absent, new or older output files; every file-system event of "
        "the run (create, write, resize, close, rename, mkdir, remove) is a point at which the process is killed "
        "before, in the middle or after, or the call fails once or from then on (all points in the thorough tier "
        "and for short runs, a random sample otherwise); plus exceptions and interrupts from inside the "
        "evaluation and input files that disappear; after each the output paths are inspected and the run is "
        "repeated; non-trivial = a fault was delivered; distinct by kind of event, fault, format and prior state")
CASES = {"quick": 40, "thorough": 250}
REQUIRED = ["killed", "torn_write", "call_failed", "at_create", "at_write", "at_close", "at_rename", "at_mkdir",
            "old_kept", "absent_kept", "already_complete", "reran", "evaluation_failed", "interrupted",
            "input_missing", "same_flow_reran", "classic_format", "many_variables"]
NOTE = ("Enumerates kill and error points of the sampled runs at the boundary between process and file system; "
        "loss of power (unsynced pages) is not modelled. Trusts netCDF4 to read files and the preloaded monitor.")
BUDGET = {"quick": 45, "thorough": 400}


def _fork(job):
    """Run job() in a child; returns 0, ("raised", text) or ("signal", number)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            job()
        except BaseException:  # noqa
            code = 3
            shim.off()
            os.write(w, traceback.format_exc()[-3000:].encode())
        finally:
            os._exit(code)
    os.close(w)
    text = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        text += b
    os.close(r)
    _p, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("signal", os.WTERMSIG(st))
    if os.WEXITSTATUS(st) == 0:
        return 0
    return ("raised", text.decode("utf8", "replace"))


class _Run:
    def __init__(self, ctx, boom=False):
        rng = ctx.rng
        self.ctx = ctx
        self.d = d = ctx.scratch()
        os.makedirs(d + "/in")
        inp = flow.Inputs(ctx, rng, hi=4, nvars=3)
        flow.fix_order(inp)
        self.files = inp.write(rng, d + "/in")
        spec = flow.Spec(inp, rng, d + "/out", nout=rng.choice([1, 2, 2, 3]), depth=rng.choice([0, 1]),
                         directions=rng.random() < 0.3, reduce=False)
        self.dd = spec.dsdict()
        if rng.random() < 0.35:
            # files of many variables: further coordinates beside those of the dimensions
            meta = [n for n, v in self.dd.items() if "file" not in v and len(v.get("dimensions", ())) == 1
                    and "definition" in v]
            for i in range(rng.choice([8, 12, 20]) if meta else 0):
                n = rng.choice(meta)
                self.dd["aux{}".format(i)] = copy.deepcopy(self.dd[n])
                self.dd["aux{}".format(i)].get("attributes", {}).pop("axis", None)
            if meta:
                ctx.count("many_variables")
        if boom:
            for n, v in self.dd.items():
                if "file" in v and isinstance(v["definition"], str):
                    v["definition"] = "vfboom({})".format(v["definition"])
        self.kwds = dict(chunks=OrderedDict())
        ch = spec.chunkable()
        if rng.random() < 0.5:
            for k in rng.sample(ch, min(len(ch), 1)):
                self.kwds["chunks"][k] = rng.randint(1, 2)
        if rng.random() < 0.12:
            # long paths
            for v in self.dd.values():
                if "file" in v:
                    p, q = os.path.split(v["file"]["filename"])
                    v["file"]["filename"] = "/".join([p] + ["a_folder_with_a_long_name" * 2] * rng.randint(4, 6) + [q])
            ctx.count("long_path")
        self.finals = sorted(v["file"]["filename"] for v in self.dd.values() if "file" in v)
        self.formats = sorted({v["file"].get("format", "default") for v in self.dd.values() if "file" in v})
        # what the output folder holds before the run
        self.prior = rng.choice(["nothing", "folder", "old", "garbage"])
        self.before = {}
        p = d + "/prior"
        if self.prior != "nothing":
            os.makedirs(p)
        if self.prior in ("old", "garbage"):
            for f in rng.sample(self.finals, rng.randint(1, len(self.finals))):
                g = p + f[len(d + "/out"):]
                os.makedirs(os.path.dirname(g), exist_ok=True)
                if self.prior == "garbage":
                    with open(g, "wb") as o:
                        o.write(b"an older file that is no NetCDF file")
                else:
                    import netCDF4

                    with netCDF4.Dataset(g, "w") as o:
                        o.createDimension("old", 2)
                        o.createVariable("old", "f8", ("old",))[:] = [1, 2]
                with open(g, "rb") as o:
                    self.before[f] = o.read()
        self.what = "{} files, prior {}, chunks {}, formats {}".format(
            len(self.finals), self.prior, dict(self.kwds["chunks"]), self.formats)

    def reset(self):
        out = self.d + "/out"
        shutil.rmtree(out, ignore_errors=True)
        if self.prior != "nothing":
            shutil.copytree(self.d + "/prior", out)

    def go(self, **arm):
        def job():
            if arm:
                shim.arm(self.d + "/out", **arm)
            flow.build(self.files, copy.deepcopy(self.dd)).execute(serial=True, **copy.deepcopy(self.kwds))
            shim.off()
        return _fork(job)

    def reference(self):
        self.reset()
        log = self.d + "/log"
        rc = self.go(log=log)
        if rc != 0:
            self.ctx.fail("fault-free-run", "{}: {}".format(self.what, rc))
        self.want = {f: flow.digest(f) for f in self.finals}
        return shim.events(log)

    def inspect(self, key, what, complete=False):
        """Every output path: absent, as before, or complete"""
        ctx = self.ctx
        for f in self.finals:
            name = os.path.basename(f)
            if not os.path.exists(f):
                ctx.check(not complete, key + "-incomplete", lambda: "{}: {} is missing".format(what, name))
                ctx.check(f not in self.before, key + "-old-lost",
                          lambda: "{}: {} existed before and is gone".format(what, name))
                ctx.count("absent_kept")
                continue
            with open(f, "rb") as o:
                data = o.read()
            if f in self.before and data == self.before[f]:
                ctx.check(not complete, key + "-incomplete", lambda: "{}: {} is the old file".format(what, name))
                ctx.count("old_kept")
                continue
            try:
                diff = flow.differ(self.want[f], flow.digest(f))
            except Exception as e:  # noqa
                diff = "unreadable ({}: {})".format(type(e).__name__, e)
            ctx.check(diff is None, key + "-partial",
                      lambda: "{}: {} is neither absent, old nor complete: {}".format(what, name, diff))
            if not complete:
                ctx.count("already_complete")

    def again(self, what):
        rc = self.go()
        self.ctx.check(rc == 0, "rerun-failed", lambda: "{}: running again: {}".format(what, rc))
        self.inspect("rerun", what + ", run again", complete=True)
        self.ctx.count("reran")


def case(ctx):
    if ctx.rng.random() < 0.35:
        return evaluation(ctx)
    rng = ctx.rng
    run = _Run(ctx)
    ev = run.reference()
    ctx.check(len(ev) >= 3 * len(run.finals), "monitor-blind", lambda: "only {} events seen".format(len(ev)))
    points = []
    for k, (_t, _pid, kind, a, b) in enumerate(ev, 1):
        points += [(k, kind, shim.KILL, 0), (k, kind, shim.FAIL, rng.choice(sorted(shim.ERRNOS)))]
        if kind == "write":
            points.append((k, kind, shim.TORN, 0))
        if kind in ("rename", "close", "mkdir"):
            points += [(k, kind, shim.KILLAFTER, 0), (k, kind, shim.FAIL, "EIO")]
        if kind in ("write", "resize", "create"):
            points.append((k, kind, shim.FAILALL, "ENOSPC"))
    n = BUDGET[ctx.tier]
    if len(points) > n:
        rare = [p for p in points if p[1] in ("rename", "close", "mkdir")]
        rng.shuffle(rare)
        rare = rare[:n // 2]
        rest = [p for p in points if p not in rare]
        points = rare + rng.sample(rest, n - len(rare))
        ctx.count("runs_sampled")
    else:
        ctx.count("runs_enumerated")
    for k, kind, mode, err in points:
        what = "{}: {} event {} of {} ({}{})".format(run.what, shim.NAMES[mode], k, len(ev), kind,
                                                     ", " + err if err else "")
        run.reset()
        rc = run.go(mode=mode, at=k, err=shim.ERRNOS.get(err, 0))
        if mode in (shim.KILL, shim.TORN, shim.KILLAFTER):
            ctx.check(rc == ("signal", signal.SIGKILL), "monitor-blind",
                      lambda: "{}: the process was not killed: {}".format(what, rc))
            ctx.count("killed")
            if mode == shim.TORN:
                ctx.count("torn_write")
        else:
            ctx.count("call_failed")
            ctx.count("failure_reported" if rc != 0 else "failure_survived")
        ctx.count("at_" + kind.replace("opencreate", "create").replace("openrw", "create"))
        if any("NETCDF3" in f for f in run.formats):
            ctx.count("classic_format")
        run.inspect("fault", what, complete=rc == 0)
        if rng.random() < 0.5 or ctx.tier == "thorough":
            run.again(what)
        ctx.nontrivial(kind, mode, err, run.prior, run.formats, len(run.finals))
    ctx.sample("{}: {} events, {} faults".format(run.what, len(ev), len(points)))


# ---------------------------------------------------------------- failures inside the evaluation
STATE = {"calls": 0, "at": 0, "error": None}


def _boom():
    from pyconform.functions import Function

    class VfBoom(Function):
        key = "vfboom"

        def __init__(self, data):
            super().__init__(data)

        def __getitem__(self, index):
            data = self.arguments[0][index]
            if index is None:
                return data
            STATE["calls"] += 1
            if STATE["calls"] == STATE["at"]:
                raise STATE["error"]
            return data

    return VfBoom


BOOM = []


def evaluation(ctx):
    rng = ctx.rng
    if not BOOM:
        BOOM.append(_boom())
    run = _Run(ctx, boom=True)
    run.reset()
    STATE.update(calls=0, at=0)
    out = {}

    def count():
        flow.build(run.files, copy.deepcopy(run.dd)).execute(serial=True, **copy.deepcopy(run.kwds))
        with open(run.d + "/calls", "w") as f:
            f.write(str(STATE["calls"]))

    rc = _fork(count)
    ctx.check(rc == 0, "fault-free-run", lambda: "{}: {}".format(run.what, rc))
    run.want = {f: flow.digest(f) for f in run.finals}
    n = int(open(run.d + "/calls").read())
    if n == 0:
        return
    for _ in range(6):
        kind = rng.choice(["error", "interrupt", "input"])
        run.reset()

        def job():
            df = flow.build(run.files, copy.deepcopy(run.dd))
            if kind == "input":
                f = rng.choice(run.files)
                os.rename(f, f + ".away")
            else:
                STATE["at"] = STATE["calls"] + at
                STATE["error"] = err
            failed = False
            try:
                df.execute(serial=True, **copy.deepcopy(run.kwds))
            except BaseException:  # noqa
                failed = True
            if kind == "input":
                os.rename(f + ".away", f)
            elif not failed:
                raise AssertionError("the error was swallowed")
            bad = [x for x in run.finals if os.path.exists(x) and not _fine(run, x)]
            if bad:
                raise AssertionError("neither absent, old nor complete: {}".format(bad))
            # the same data flow again, in the same process
            df.execute(serial=True, **copy.deepcopy(run.kwds))

        at = rng.randint(1, n)
        err = KeyboardInterrupt("injected") if kind == "interrupt" else rng.choice(
            [RuntimeError("injected"), MemoryError("injected"), OSError(5, "injected")])
        what = "{}: {} in the evaluation (call {} of {})".format(run.what, kind, at, n)
        rc = _fork(job)
        ctx.check(rc == 0, "evaluation-fault", lambda: "{}: {}".format(what, rc))
        run.inspect("evaluation", what + ", same data flow again", complete=True)
        ctx.count("same_flow_reran")
        # without running again
        run.reset()

        def once():
            df = flow.build(run.files, copy.deepcopy(run.dd))
            STATE["at"] = STATE["calls"] + at
            STATE["error"] = err
            df.execute(serial=True, **copy.deepcopy(run.kwds))

        rc = _fork(once)
        ctx.check(rc != 0, "evaluation-swallowed", lambda: "{}: no error was reported".format(what))
        run.inspect("evaluation", what)
        run.again(what)
        ctx.count({"error": "evaluation_failed", "interrupt": "interrupted", "input": "input_missing"}[kind])
        ctx.nontrivial(kind, type(err).__name__, at == n, run.prior, run.formats)


def _fine(run, f):
    with open(f, "rb") as o:
        if run.before.get(f) == o.read():
            return True
    try:
        return flow.differ(run.want[f], flow.digest(f)) is None
    except Exception:  # noqa
        return False
