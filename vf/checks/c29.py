"""C29: the command line does what the programming interface does"""
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import traceback
import warnings
from collections import OrderedDict

import numpy as np

from vf import flow, ranks

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "differential monitor: files, exits and calls of the real command against the programming interface and references"
RULE = ("random specifications and inputs through xconform.main in forked processes (alone, and as 1 to 4 cooperating "
        "ranks) and as a command in a process of its own, with random combinations of its options: files compared with "
        "those of the programming interface and with independently computed contents; deflate levels and history read "
        "back; chunk sizes observed by a user function loaded with -m; wrong options, specifications and files; "
        "distinct by options and specification")
CASES = {"quick": 320, "thorough": 6000}
REQUIRED = {"serial": 60, "ranks": 10, "deflate": 10, "history": 20, "no_history": 20, "chunked": 20, "module": 20,
            "pieces_seen": 20, "globs": 20, "no_inputs": 5, "no_inputs_ranks": 1, "rejected": 15, "validation_error": 3,
            "validation_warning": 3, "debug": 3, "relative": 10}
REQUIRED_FIXED = ["command"]

MODULE = '''
import numpy
from pyconform.functions import Function
from pyconform.physarray import PhysArray


class {cls}(Function):
    key = "{key}"

    def __init__(self, x):
        super().__init__(x)

    def __getitem__(self, index):
        x = self.arguments[0][index]
        if index is not None:
            with open({log!r}, "a") as f:
                f.write("{{}}\\n".format(list(zip(x.dimensions, x.shape))))
        return PhysArray(x * {factor}, name="{key}(" + x.name + ")")
'''


def child(fn):
    """Run fn in a process of its own: ("done", result), ("exit", code) or ("error", text)"""
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe()

    def body():
        try:
            b.send(("done", fn()))
        except SystemExit as e:
            b.send(("exit", e.code))
        except BaseException:  # noqa
            b.send(("error", traceback.format_exc()))
        finally:
            b.close()
            os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    b.close()
    try:
        r = a.recv() if a.poll(120) else ("stuck", "no end in 120 s")
    except EOFError:
        r = ("died", None)
    if r[0] == "stuck":
        p.kill()
    p.join()
    a.close()
    if r[0] == "died":
        r = ("died", p.exitcode)
    return r


def command(argv, cwd, comm=None, made=None):
    """The real command in this process"""
    import asaptools.simplecomm as sc

    real = sc.create_comm

    def create(serial=False):
        if made is not None:
            made.append(serial)
        return real(serial=True) if comm is None else comm

    sc.create_comm = create
    from pyconform.cli import xconform

    if hasattr(xconform, "create_comm"):
        xconform.create_comm = create
    os.chdir(cwd)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        xconform.main(list(argv))
    return [x.category.__name__ for x in w]


class Job:
    """A random specification on disk with its inputs, options and expectations"""

    def __init__(self, ctx, folder):
        rng = ctx.rng
        self.ctx, self.folder = ctx, folder
        self.out = folder + "/out"
        os.makedirs(folder + "/in")
        self.inp = flow.Inputs(ctx, rng)
        flow.fix_order(self.inp)
        self.files = self.inp.write(rng, folder + "/in")
        self.spec = flow.Spec(self.inp, rng, self.out, depth=rng.choice([1, 2, 3]), chars=0.2)
        self.d = self.spec.dsdict()
        self.modules = []
        self.probes = {}  # variable -> (log, factor, source variable)
        self.argv, self.kwds = [], {"history": True}

    def add_module(self, k):
        """A user function applied to an input variable, which notes the sizes it is called with"""
        rng = self.ctx.rng
        key = "vfprobe{}x{}".format(os.getpid(), rng.getrandbits(40))
        log = "{}/log{}".format(self.folder, k)
        factor = rng.choice([2, 3, 0.5])
        path = "{}/{}{}.py".format(self.folder, rng.choice(["mod", "functions", "user0_"]), k)
        with open(path, "w") as f:
            f.write(MODULE.format(cls="Probe%dFunction" % k, key=key, log=log, factor=factor))
        v = rng.choice(sorted(n for n in self.inp.vars if n.startswith("v")))
        q = self.inp.inputs()[v].q if hasattr(self.inp.inputs()[v], "q") else self.inp.vars[v]["q"]
        name = "probe%d" % k
        odims = [self.spec.dimmap[x] for x in q.dims]
        self.d[name] = OrderedDict([
            ("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", odims),
            ("definition", "{}({})".format(key, v)),
            ("file", OrderedDict([("filename", "{}/{}.nc".format(self.out, name)), ("format", "NETCDF4")]))])
        self.modules.append(path)
        self.probes[name] = (log, factor, q)

    def options(self, chunks=True):
        rng, ctx = self.ctx.rng, self.ctx
        a = []

        def flag(*names):
            return rng.choice(names)

        if self.probes or rng.random() < 0.6:
            ok = sorted(set(self.spec.chunkable()) | {self.spec.dimmap[x] for p in self.probes.values() for x in p[2].dims})
            ok = [x for x in ok if x not in self.spec.sumlike() and x != "labellen"]
            if chunks and ok and rng.random() < 0.7:
                c = OrderedDict((x, rng.randint(1, 5)) for x in rng.sample(ok, rng.randint(1, min(2, len(ok)))))
                for n, s in c.items():
                    a.append([flag("-c", "--chunk"), "{},{}".format(n, s)])
                self.kwds["chunks"] = c
                ctx.count("chunked")
        if rng.random() < 0.4:
            self.kwds["deflate"] = rng.randint(0, 9)
            a.append([flag("-d", "--deflate"), str(self.kwds["deflate"])])
            ctx.count("deflate")
        if rng.random() < 0.5:
            self.kwds["history"] = False
            a.append([flag("-n", "--no_history")])
            ctx.count("no_history")
        else:
            ctx.count("history")
        if rng.random() < 0.15:
            a.append(["--debug"])
            self.kwds["debug"] = True
            ctx.count("debug")
        if rng.random() < 0.15:
            a.append([flag("-e", "--error")])
        self.std = self.folder + "/" + rng.choice(["spec.json", "my spec.txt", "standard"])
        with open(self.std, "w") as f:
            json.dump(self.d, f, indent=rng.choice([None, 4]))
        self.cwd = self.folder if rng.random() < 0.4 else "/"
        a.append([flag("-f", "--stdfile"), self.rel(self.std)])
        for m in self.modules:
            a.append([flag("-m", "--module"), self.rel(m)])
        rng.shuffle(a)
        # the order of modules and chunks as given
        mods = [x for x in a if x[0] in ("-m", "--module")]
        it = iter(sorted(mods, key=lambda x: [self.rel(m) for m in self.modules].index(x[1])))
        a = [next(it) if x in mods else x for x in a]
        self.argv = [x for p in a for x in p]
        if self.cwd == self.folder:
            ctx.count("relative")

    def rel(self, path):
        return os.path.relpath(path, self.folder) if self.cwd == self.folder else path

    def names(self):
        """Command-line words for the input files"""
        rng = self.ctx.rng
        r = rng.random()
        if r < 0.4:
            self.ctx.count("globs")
            words = [self.folder + "/in/*"]
        elif r < 0.6:
            self.ctx.count("globs")
            words = [re.sub(r"[^/](\.nc)?$", r"?\1", f) for f in self.files]
            words = sorted(set(words)) + [self.folder + "/in/nothing*.nc"]
        else:
            words = rng.sample(self.files, len(self.files))
        return [self.rel(w) for w in words]

    def api(self, kwds=None):
        """Files written by the programming interface"""
        k = dict(self.kwds, serial=True)
        k["chunks"] = dict(k.get("chunks", {}))
        k.update(kwds or {})

        def body():
            keep = []
            for m in self.modules:
                keep.append({"__name__": "api_module"})
                exec(compile(open(m).read(), m, "exec"), keep[-1])
            flow.run(self.files, json.loads(json.dumps(self.d), object_pairs_hook=OrderedDict), **k)

        r = child(body)
        if r[0] != "done":
            return r, {}
        w = {f: flow.digest(f) for f in flow.listing(self.out)}
        shutil.rmtree(self.out)
        for log, _f, _q in self.probes.values():
            os.remove(log)
        return r, w

    def judge(self, want, what):
        ctx = self.ctx
        have = flow.listing(self.out)
        ctx.check(have == sorted(want), "files", lambda: "{}: files {} expected {}".format(what, have, sorted(want)))
        # independently computed contents
        for fn in sorted(self.spec.files):
            got = flow.read(fn)
            flow.judge_values(ctx, self.spec, got, self.spec.expected_vars(fn), "content", what)
            ctx.count("files_compared")
        import netCDF4

        for fn in have:
            with netCDF4.Dataset(fn) as f:
                for n, v in f.variables.items():
                    h = "history" in v.ncattrs()
                    ctx.check(h == self.kwds["history"], "history", lambda: "{} {} {}: history {}".format(
                        what, fn, n, v.ncattrs()))
                    if "deflate" in self.kwds and f.file_format.startswith("NETCDF4"):
                        z = v.filters()
                        lev = z["complevel"] if z["zlib"] else 0
                        ctx.check(lev == self.kwds["deflate"] or (v.dtype.kind in "SU" and lev == 0) or not v.dimensions,
                                  "deflate", lambda: "{} {} {}: {} expected {}".format(what, fn, n, z, self.kwds["deflate"]))
                        ctx.count("levels_read")
            df = flow.differ(flow.digest(fn), want[fn])
            ctx.check(df is None, "differs", lambda: "{} {}: {}".format(what, os.path.basename(fn), df))
        chunks = self.kwds.get("chunks", {})
        for name, (log, factor, q) in self.probes.items():
            got = flow.read("{}/{}.nc".format(self.out, name))["vars"][name]
            val = np.ma.asarray(np.ma.array(q.val, mask=q.mask) * factor)
            idx = tuple(slice(None, None, -1) if d in self.spec.flipped else slice(None) for d in got[1])
            val = np.ma.asarray(val[idx])
            ctx.check(np.array_equal(np.ma.getmaskarray(got[2]), np.ma.getmaskarray(val)) and
                      np.allclose(got[2].compressed(), val.compressed(), rtol=1e-6), "probe-values",
                      lambda: "{} {}: {} expected {}".format(what, name, got[2], val))
            with open(log) as f:
                calls = [dict(eval(line)) for line in f]
            size = {self.spec.dimmap[d]: (d, n) for d, n in zip(q.dims, q.val.shape)}
            total = 0
            for c in calls:
                n = 1
                for od, (d, full) in size.items():
                    lim = min(chunks.get(od, full), full)
                    ctx.check(c[d] <= lim, "piece-size", lambda: "{}: function called with {} where the chunks are {}".format(
                        what, c, chunks))
                    n *= c[d]
                total += n
                if set(chunks) & set(size):
                    ctx.count("pieces_seen")
            ctx.check(total >= q.val.size, "pieces-missing", lambda: "{}: {} {}".format(what, calls, size))
            ctx.count("module")


def case(ctx):
    rng = ctx.rng
    folder = ctx.scratch()
    r = rng.random()
    if r < 0.12:
        return rejected(ctx, folder)
    if r < 0.2:
        return nothing(ctx, folder)
    if r < 0.3:
        return validation(ctx, folder)
    job = Job(ctx, folder)
    for k in range(rng.choice([0, 1, 1, 2])):
        job.add_module(k)
    job.options()
    st, want = job.api()
    ctx.check(st[0] == "done", "interface-failed", lambda: str(st))
    argv = list(job.argv)
    size = rng.choice([1, 2, 3, 4]) if rng.random() < 0.25 else 0
    names = job.names()
    what = "xconform {} {}; {} ranks; {}".format(" ".join(argv), names, size, "; ".join(
        "{}({}) = {}".format(n, ",".join(v["dimensions"]), v["definition"]) for n, v in job.d.items()))
    if rng.random() < 0.5:
        argv = names + argv
    else:
        # infiles after an option that takes one value
        argv = argv + names if argv[-2][0] != "-" or argv[-1][0] != "-" else names + argv
    if size:
        def work(comm, rank):
            return command(argv, job.cwd, comm)

        res, stuck, _p = ranks.run(work, size, rng)
        ctx.check(stuck is None, "stuck", lambda: "{}: {} {}".format(what, stuck, res))
        bad = {r: x for r, x in res.items() if x[0] != "done"}
        ctx.check(not bad, "rank-failed", lambda: "{}: {}".format(what, {r: str(x[1])[-1500:] for r, x in bad.items()}))
        ctx.count("ranks")
    else:
        serial = rng.random() < 0.5
        if serial:
            argv.insert(0, rng.choice(["-s", "--serial"]))
        made = []

        def work():
            command(argv, job.cwd, None, made)
            return made

        r = child(work)
        ctx.check(r[0] == "done", "command-failed", lambda: "{}: {}".format(what, r))
        ctx.check(r[1] == [serial], "serial-option", lambda: "{}: communicator made with serial={}".format(what, r[1]))
        ctx.count("serial")
    job.judge(want, what)
    ctx.sample(what)
    ctx.nontrivial(tuple(argv), what)


def rejected(ctx, folder):
    """Wrong options, specifications and files end in an error and leave no files"""
    rng = ctx.rng
    job = Job(ctx, folder)
    kind = rng.choice(["nospec", "nofile", "chunk", "chunk", "unknown", "zero", "level", "levels", "json", "module", "option",
                       "function", "summed"])
    job.options(chunks=False)
    argv = [x for x in job.argv if x not in ("--debug",)]
    job.kwds.pop("debug", None)
    names = job.names()
    if kind == "nospec":
        os.remove(job.std)
    elif kind == "nofile":
        k = next(i for i, x in enumerate(argv) if x in ("-f", "--stdfile"))
        del argv[k:k + 2]
    elif kind == "chunk":
        argv = ["-c", rng.choice(["lat", "lat,", "lat,x", "lat,2,3", "lat,2.5", ","])] + argv
    elif kind == "unknown":
        argv = ["-c", "nosuchdim,2"] + argv
    elif kind == "zero":
        ok = [x for x in job.spec.chunkable() if x != "labellen"]
        if not ok:
            return
        argv = argv + ["--chunk", "{},{}".format(rng.choice(ok), rng.choice([0, -1, -5]))]
    elif kind == "level":
        argv = argv + ["--deflate=" + rng.choice(["10", "-1", "99"])]
    elif kind == "levels":
        argv = ["-d", rng.choice(["x", "2.5", ""])] + argv
    elif kind == "json":
        text = open(job.std).read()
        with open(job.std, "w") as f:
            f.write(rng.choice([text[:-2], "", "{]", text + "}"]))
    elif kind == "module":
        bad = folder + "/bad.py"
        t = rng.choice([None, "import nosuchmodule_vf\n", "def f(:\n", "raise ValueError(1)\n"])
        if t:
            with open(bad, "w") as f:
                f.write(t)
        argv = ["-m", bad] + argv
    elif kind == "option":
        argv = [rng.choice(["--nosuch", "-z"])] + argv
    elif kind == "function":
        # a user function without its module
        job.add_module(0)
        with open(job.std, "w") as f:
            json.dump(job.d, f)
    elif kind == "summed":
        s = sorted(job.spec.sumlike())
        if not s:
            return
        argv = ["-c", rng.choice(s) + ",1"] + argv
    what = "{}: xconform {} {}".format(kind, argv, names)
    if kind != "level" and rng.random() < 0.4:
        size = rng.choice([2, 3])
        res, stuck, _p = ranks.run(lambda comm, rank: command(names + argv, job.cwd, comm), size, rng)
        ctx.check(stuck is None, "stuck", lambda: "{} with {} ranks: {}".format(what, size, stuck))
        ctx.check(any(x[0] == "error" for x in res.values()), "accepted", lambda: "{}: ended with {}".format(what, res))
        ctx.count("rejected_ranks")
    r = child(lambda: command(names + argv, job.cwd))
    ok = r[0] == "error" or (r[0] == "exit" and r[1] not in (0, None))
    ctx.check(ok, "accepted", lambda: "{}: ended with {}".format(what, r))
    if kind in ("chunk", "option", "levels"):
        ctx.check(r == ("exit", 2), "usage-exit", lambda: "{}: {}".format(what, r))
    have = flow.listing(job.out) if os.path.exists(job.out) else []
    ctx.check(not have, "files-left", lambda: "{}: {}".format(what, have))
    ctx.count("rejected")
    ctx.count("rejected_" + kind)
    ctx.nontrivial(what)


def nothing(ctx, folder):
    """Without input files the specification is validated and nothing written"""
    rng = ctx.rng
    job = Job(ctx, folder)
    good = rng.random() < 0.6
    if not good:
        k = rng.choice(sorted(job.d))
        bad = rng.choice(["type", "dims", "format", "deflate"])
        if bad == "type":
            job.d[k]["datatype"] = "flot"
        elif bad == "dims":
            del job.d[k]["dimensions"]
        else:
            k = rng.choice(sorted(n for n in job.d if "file" in job.d[n]))
            job.d[k]["file"][bad] = {"format": "NETCDF9", "deflate": 17}[bad]
    job.options()
    argv = job.argv
    if rng.random() < 0.4:
        argv = [folder + "/none*.nc"] + argv
    before = flow.listing(folder)
    what = "xconform {} ({})".format(argv, "good" if good else bad)
    size = rng.choice([1, 2, 3]) if rng.random() < 0.4 else 0
    if size:
        res, stuck, _p = ranks.run(lambda comm, rank: command(argv, job.cwd, comm), size, rng)
        ctx.check(stuck is None, "stuck", lambda: "{} without inputs: {}".format(what, stuck))
        if good:
            ctx.check(all(x[0] == "done" for x in res.values()), "rank-failed", lambda: "{}: {}".format(what, res))
        else:
            ctx.check(any(x[0] == "error" for x in res.values()), "validated", lambda: "{}: {}".format(what, res))
        ctx.count("no_inputs_ranks")
    else:
        r = child(lambda: command(argv, job.cwd))
        if good:
            ctx.check(r[0] == "done", "not-validated", lambda: "{}: {}".format(what, r))
        else:
            ctx.check(r[0] == "error", "validated", lambda: "{}: {}".format(what, r))
    ctx.check(flow.listing(folder) == before, "wrote", lambda: "{}: {}".format(what, flow.listing(folder)))
    ctx.count("no_inputs")
    ctx.nontrivial(what)


def validation(ctx, folder=None):
    """Failed validation: a warning, or with -e an error"""
    rng = ctx.rng
    for k in range(20):
        job = Job(ctx, "{}/try{}".format(ctx.scratch(), k))
        fn = rng.choice(sorted(job.spec.files))
        name = job.spec.files[fn]
        w = job.spec.want[name]
        if "q" not in w or not (~w["q"].mask).any() or "_FillValue" in job.d[name]["attributes"]:
            continue
        v = w["q"].val[~w["q"].mask]
        if np.isfinite(v).all() and np.abs(v).max() < 1e30:
            break
    else:
        return
    job.d[name]["attributes"]["valid_min"] = float(v.max()) + abs(float(v.max())) + 1.0
    job.options()
    err = any(x in job.argv for x in ("-e", "--error"))
    argv = job.argv
    if not err and rng.random() < 0.5:
        argv = ["-e"] + argv
        err = True
    names = job.names()
    what = "xconform {} {} with {} below its valid_min".format(argv, names, name)
    r = child(lambda: command(names + argv, job.cwd))
    if err:
        ctx.check(r[0] == "error" and "ValidationWarning" in r[1], "no-error", lambda: "{}: {}".format(what, r))
        ctx.check(not os.path.exists(fn), "file-left", lambda: "{}: {}".format(what, fn))
        ctx.count("validation_error")
    else:
        ctx.check(r[0] == "done" and "ValidationWarning" in r[1], "no-warning", lambda: "{}: {}".format(what, r))
        ctx.check(flow.listing(job.out) == sorted(job.spec.files), "files", lambda: what)
        ctx.count("validation_warning")
    ctx.nontrivial(what)


def process(ctx):
    """The command as a process"""
    rng = ctx.rng
    folder = ctx.scratch()
    job = Job(ctx, folder)
    job.add_module(0)
    job.options()
    st, want = job.api()
    ctx.check(st[0] == "done", "interface-failed", lambda: str(st))
    env = dict(os.environ)
    repo = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["pyconform"].__file__)))
    env["PYTHONPATH"] = repo
    argv = ["-s"] + job.names() + job.argv

    def go(argv):
        return subprocess.run([sys.executable, "-m", "pyconform.cli.xconform"] + argv, cwd=job.cwd, env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)

    p = go(argv)
    what = "python -m pyconform.cli.xconform " + " ".join(argv)
    ctx.check(p.returncode == 0, "process-failed", lambda: "{}: {} {}".format(what, p.returncode, p.stdout[-2000:]))
    job.judge(want, what)
    shutil.rmtree(job.out)
    bad = rng.choice([["-s", "-f", folder + "/nosuch.json"], ["-s", "-c", "x"] + job.argv, argv + ["-d", "11"]])
    p = go(bad)
    ctx.check(p.returncode not in (0, None), "process-accepted", lambda: "{}: {}".format(bad, p.stdout[-2000:]))
    ctx.check(not os.path.exists(job.out) or not flow.listing(job.out), "files-left", lambda: str(bad))
    ctx.count("command")
    ctx.nontrivial(what)


def fixed(tier):
    n = 4 if tier == "quick" else 40
    return [("process%d" % i, process) for i in range(n)] + [("validation%d" % i, validation) for i in range(2 * n)]
