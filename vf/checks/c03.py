"""C03: parallel runs write each file exactly once, whatever the number of ranks"""
import copy
import os
import pickle
import shutil
import subprocess
import sys
from collections import Counter, OrderedDict

from vf import flow, ranks, shim

ID = "C03"
LEVEL = "exploration"
PRELOAD = True
TECHNIQUE = ("trace monitor: file-system events of every rank (preloaded library) checked for exactly-once "
             "writing under perturbed schedules, results compared with a serial run")
RULE = ("random specifications of 1-7 files, many in shared new sub-directories, run serially and then by 2-8 "
        "ranks (real SimpleCommMPI over a scheduled stand-in for MPI; a few over real MPI) with random pauses "
        "before file-system calls and at barriers; events and files compared; non-trivial = at least two ranks "
        "wrote; distinct by order of creations and renames over the ranks")
CASES = {"quick": 110, "thorough": 2500}
REQUIRED = ["parallel_runs", "many_files", "more_ranks_than_files", "fewer_ranks_than_files", "shared_new_directory", "own_interpreters",
            "directory_raced", "files_compared", "two_or_more_writers", "chunked"]
NOTE = ("Schedules are sampled: real processes with pauses at their file-system calls. Real MPI runs are made "
        "when mpirun works in the sandbox (counter real_mpi). Trusts ASAPTools, netCDF4 and the preloaded monitor.")


def fresh_job(comm, rank, a):
    """What a rank in an interpreter of its own does"""
    shim.arm(a["out"], a["log"], seed=a["seed"] + rank, delay=a["delay"])
    flow.build(a["files"], copy.deepcopy(a["dd"])).execute(scomm=comm, **copy.deepcopy(a["kwds"]))


def _spec(ctx, nfiles, equal=False):
    """A specification of many files and the input files it reads"""
    rng = ctx.rng
    d = ctx.scratch()
    os.makedirs(d + "/in")
    inp = flow.Inputs(ctx, rng, hi=5)
    flow.fix_order(inp)
    files = inp.write(rng, d + "/in")
    exprs = [("var", rng.choice(sorted(inp.inputs())))] * nfiles if equal else None
    spec = flow.Spec(inp, rng, d + "/out", nout=nfiles, exprs=exprs, depth=rng.choice([0, 1, 2]),
                     directions=rng.random() < 0.3, reduce=rng.random() < 0.4)
    shared = rng.random() < 0.8
    subs = ["", "/a", "/a/b", "/new/x/y"] if rng.random() < 0.5 else ["/deep/er"]
    dd = OrderedDict()
    for n, v in spec.dsdict().items():
        if "file" in v and shared:
            v["file"]["filename"] = d + "/out" + rng.choice(subs) + "/" + os.path.basename(v["file"]["filename"])
        dd[n] = v
    chunks = OrderedDict()
    if rng.random() < 0.4:
        ch = spec.chunkable()
        for k in rng.sample(ch, min(len(ch), rng.randint(1, 2))):
            chunks[k] = rng.randint(1, 3)
    return files, dd, chunks, shared


def _judge(ctx, d, want, what):
    have = flow.listing(d + "/out")
    ctx.check(have == sorted(want), "files", lambda: "{}: files {} expected {}".format(
        what, [f.replace(d, "") for f in have], [f.replace(d, "") for f in sorted(want)]))
    for f in have:
        diff = flow.differ(want[f], flow.digest(f))
        ctx.check(diff is None, "differs", lambda: "{} {}: {}".format(what, f.replace(d, ""), diff))
        ctx.count("files_compared")


def crowd(ctx):
    case(ctx, True)


def case(ctx, crowd=False):
    rng = ctx.rng
    d = ctx.scratch()
    fresh = not crowd and rng.random() < 0.08
    crowd = crowd or not fresh and rng.random() < 0.01
    nfiles = rng.randint(65, 140) if crowd else rng.randint(3, 7) if fresh else rng.randint(1, 7)
    if crowd:
        ctx.count("many_files")
    files, dd, chunks, shared = _spec(ctx, nfiles, fresh or crowd or rng.random() < 0.2)
    kwds = dict(chunks=chunks, history=rng.random() < 0.3)
    os.makedirs(d + "/out")
    flow.run(files, copy.deepcopy(dd), **copy.deepcopy(kwds))
    want = {f: flow.digest(f) for f in flow.listing(d + "/out")}
    asked = sorted(v["file"]["filename"] for v in dd.values() if "file" in v)
    ctx.check(sorted(want) == asked, "serial-files", lambda: "serial run: files {} expected {}".format(
        [f.replace(d, "") for f in sorted(want)], [f.replace(d, "") for f in asked]))
    for i in range(1 if fresh else 2):
        size = rng.randint(2, 4) if fresh else rng.randint(2, 8)
        shutil.rmtree(d + "/out")
        if rng.random() < 0.7:
            os.makedirs(d + "/out")
        log = "{}/events{}".format(d, i)
        seed = rng.getrandbits(30)
        delay = rng.choice([0, 300, 2000])

        def job(comm, rank):
            df = flow.build(files, copy.deepcopy(dd))
            df.execute(scomm=comm, **copy.deepcopy(kwds))

        def setup(rank):
            shim.arm(d + "/out", log, seed=seed + rank, delay=delay)

        what = "{} ranks, {} files".format(size, len(want))
        if fresh:
            what += " in interpreters of their own"
            ctx.count("own_interpreters")
            job = ("vf.checks.c03", "fresh_job", dict(files=files, dd=dd, kwds=kwds, out=d + "/out", log=log, seed=seed,
                                                      delay=delay))
        res, stuck, pids = ranks.run(job, size, rng, setup, pause=rng.choice([0, 0.003]), fresh=fresh)
        ctx.check(stuck is None, "stuck", lambda: "{}: {} {}".format(what, stuck, res))
        bad = {r: x for r, x in res.items() if x[0] != "done"}
        ctx.check(not bad, "rank-failed", lambda: "{}: {}".format(
            what, {r: str(x[1])[-1500:] for r, x in bad.items()}))
        ev = [(t, pids[p], k, a, b) for t, p, k, a, b in shim.events(log)]
        for f in want:
            n = [r for _t, r, k, a, b in ev if k == "rename" and b == f]
            ctx.check(len(n) == 1, "renamed", lambda: "{}: {} became visible {} times (ranks {})".format(
                what, f.replace(d, ""), len(n), n))
        made = {}
        for _t, r, k, a, b in ev:
            if k == "create":
                made.setdefault(a, []).append(r)
        for a, rs in made.items():
            ctx.check(len(rs) == 1, "created", lambda: "{}: {} created by ranks {}".format(
                what, a.replace(d, ""), rs))
        ctx.check(len(made) == len(want), "created-count", lambda: "{}: created {} expected {}".format(
            what, sorted(made), sorted(want)))
        for _t, r, k, a, b in ev:
            if k in ("write", "resize") and a in made:
                ctx.check(made[a] == [r], "foreign-write", lambda: "{}: rank {} writes to {} of rank {}".format(
                    what, r, a.replace(d, ""), made[a]))
        _judge(ctx, d, want, what)
        ctx.count("parallel_runs")
        ctx.count("events", len(ev))
        ctx.count("more_ranks_than_files" if size > len(want) else "fewer_ranks_than_files")
        if chunks:
            ctx.count("chunked")
        dirs = Counter(os.path.dirname(f) for f in want if os.path.dirname(f) != d + "/out")
        if any(n > 1 for n in dirs.values()):
            ctx.count("shared_new_directory")
        mk = Counter(a for _t, r, k, a, b in ev if k == "mkdir")
        if any(n > 1 for n in mk.values()):
            ctx.count("directory_raced")
        writers = {r for _t, r, k, a, b in ev if k == "create"}
        if len(writers) > 1:
            ctx.count("two_or_more_writers")
            ctx.nontrivial(size, [(r, k) for _t, r, k, a, b in ev if k in ("create", "rename", "mkdir")])
        ctx.sample("{}: {}".format(what, " ".join("{}:{}".format(r, k) for _t, r, k, a, b in ev
                                                  if k in ("create", "rename", "mkdir"))))


# ---------------------------------------------------------------- real MPI
def _env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("OMPI_MCA_ess_singleton_isolated", "PYTHONHASHSEED", "LD_PRELOAD", "VF_SHIM")}
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    return e


def _mpirun(n, args, timeout):
    cmd = ["mpirun", "--oversubscribe", "-np", str(n), sys.executable, "-W", "ignore"] + args
    p = subprocess.Popen(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, ""


def real(ctx):
    probe = "from mpi4py import MPI; c = MPI.COMM_WORLD; c.Barrier(); assert c.Get_size() == 2"
    try:
        rc, out = _mpirun(2, ["-c", probe], 60)
    except OSError:
        rc = None
    if rc != 0:
        ctx.count("real_mpi_unavailable")
        return
    rng = ctx.rng
    d = ctx.scratch()
    files, dd, chunks, shared = _spec(ctx, rng.randint(2, 5))
    kwds = dict(chunks=chunks, history=True)
    os.makedirs(d + "/out")
    flow.run(files, copy.deepcopy(dd), **copy.deepcopy(kwds))
    want = {f: flow.digest(f) for f in flow.listing(d + "/out")}
    shutil.rmtree(d + "/out")
    with open(d + "/job", "wb") as f:
        pickle.dump({"files": files, "dsdict": dd, "kwds": kwds}, f)
    n = rng.choice([2, 3, 4])
    rc, out = _mpirun(n, ["-m", "vf.mpijob", d + "/job"], 150)
    what = "real MPI, {} ranks, {} files".format(n, len(want))
    ctx.check(rc == 0, "mpi-failed", lambda: "{}: exit {} {}".format(what, rc, out[-2500:]))
    _judge(ctx, d, want, what)
    ctx.count("real_mpi")


def fixed(tier):
    return [("crowd%d" % i, crowd) for i in range(2 if tier == "quick" else 8)] + [
        ("mpi%d" % i, real) for i in range(3 if tier == "quick" else 20)]
