"""
Cooperating ranks as processes of this machine, without MPI.

Every rank is a forked process that runs the real SimpleCommMPI class of ASAPTools over a
stand-in for its MPI communicator; the messages and barriers go through this process, which
releases them in random order and with random pauses, notices when no rank can go on, and
knows which rank did what.
"""
import multiprocessing
import os
import pickle
import time
import traceback
from multiprocessing.connection import wait

from asaptools.simplecomm import SimpleCommMPI

OPS = {"SUM": sum, "MAX": max, "MIN": min}


class _World:
    """The part of an MPI communicator that SimpleCommMPI uses"""

    def __init__(self, conn, rank, size):
        self.conn, self.rank, self.size = conn, rank, size

    def _ask(self, *msg):
        self.conn.send(msg)
        return self.conn.recv()

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Barrier(self):
        self._ask("barrier")

    barrier = Barrier

    def send(self, obj, dest, tag=0):
        self._ask("send", dest, tag, pickle.dumps(obj))

    def recv(self, source=-1, tag=-1, status=None):
        return pickle.loads(self._ask("recv", source, tag))

    def Send(self, obj, dest, tag=0):
        self.send(obj, dest, tag)

    def Recv(self, buf, source=-1, tag=-1):
        buf[...] = self.recv(source, tag)

    def gather(self, obj, root=0):
        every = [pickle.loads(x) for x in self._ask("share", pickle.dumps(obj))]
        return every if self.rank == root else None

    def bcast(self, obj=None, root=0):
        return pickle.loads(self._ask("share", pickle.dumps(obj))[root])

    def allgather(self, obj):
        return [pickle.loads(x) for x in self._ask("share", pickle.dumps(obj))]

    def allreduce(self, obj, op=sum):
        return op(self.allgather(obj))


class _MPI:
    ANY_SOURCE = -1
    SUM, MAX, MIN, PROD = sum, max, min, None

    def __init__(self, world):
        self.COMM_WORLD = world


class Comm(SimpleCommMPI):
    def __init__(self, conn, rank, size):
        import numpy

        self._numpy = numpy
        self._comm = _World(conn, rank, size)
        self._mpi = _MPI(self._comm)
        self._color = None
        self._group = None

    def __del__(self):
        pass


def _fresh(conn, rank, size, module, function, arg):
    """A rank in an interpreter of its own"""
    try:
        import importlib

        r = getattr(importlib.import_module(module), function)(Comm(conn, rank, size), rank, arg)
        conn.send(("done", r))
    except BaseException:  # noqa
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def run(job, size, rng, setup=None, pause=0.0, timeout=120.0, fresh=False):
    """
    Run job(comm, rank) in `size` processes (with fresh: in interpreters of their own, each with its own
    order of sets, where job is (module, function, argument)).  Returns {rank: ("done", result) | ("error", text) |
    ("died", code)}, a reason why they got stuck or None, and {pid: rank}.
    """
    ctx = multiprocessing.get_context("spawn" if fresh else "fork")
    procs, conns, pids = {}, {}, {}

    def child(conn, rank):
        try:
            if setup:
                setup(rank)
            r = job(Comm(conn, rank, size), rank)
            conn.send(("done", r))
        except BaseException:  # noqa
            conn.send(("error", traceback.format_exc()))
        finally:
            conn.close()
            os._exit(0)

    for r in range(size):
        a, b = ctx.Pipe()
        if fresh:
            p = ctx.Process(target=_fresh, args=(b, r, size) + tuple(job))
            seed = os.environ.get("PYTHONHASHSEED")
            os.environ["PYTHONHASHSEED"] = str(rng.randint(1, 2 ** 31))
            try:
                p.start()
            finally:
                if seed is None:
                    del os.environ["PYTHONHASHSEED"]
                else:
                    os.environ["PYTHONHASHSEED"] = seed
        else:
            p = ctx.Process(target=child, args=(b, r))
            p.start()
        b.close()
        procs[r], conns[r], pids[p.pid] = p, a, r
    waiting = {}  # rank -> what it waits for
    results = {}
    box = {r: [] for r in range(size)}
    stuck = None
    end = time.monotonic() + timeout

    def release(answers):
        answers = list(answers)
        rng.shuffle(answers)
        for r, x in answers:
            waiting.pop(r)
            if pause and rng.random() < 0.3:
                time.sleep(rng.random() * pause)
            conns[r].send(x)

    while len(results) < size:
        left = end - time.monotonic()
        if left <= 0:
            stuck = "no progress in {} s; waiting: {}".format(timeout, waiting)
            break
        live = [conns[r] for r in range(size) if r not in results and r not in waiting]
        if not live:
            stuck = "finished: {}; waiting for each other: {}".format(
                sorted(results), {r: w[0] for r, w in waiting.items()})
            break
        ready = wait(live, left)
        rng.shuffle(ready)
        for c in ready:
            r = next(k for k in conns if conns[k] is c)
            try:
                msg = c.recv()
            except EOFError:
                procs[r].join()
                results[r] = ("died", procs[r].exitcode)
                continue
            if msg[0] in ("done", "error"):
                results[r] = (msg[0], msg[1])
            else:
                waiting[r] = msg
        for r, msg in list(waiting.items()):
            if msg[0] == "send":
                box[msg[1]].append((r, msg[2], msg[3]))
                release([(r, None)])
        for r, msg in list(waiting.items()):
            if msg[0] == "recv":
                for m in box[r]:
                    if msg[1] in (-1, m[0]) and msg[2] in (-1, m[1]):
                        box[r].remove(m)
                        release([(r, m[2])])
                        break
        if len(waiting) == size:
            kinds = {m[0] for m in waiting.values()}
            if kinds == {"barrier"}:
                release([(r, None) for r in waiting])
            elif kinds == {"share"}:
                every = [waiting[r][1] for r in range(size)]
                release([(r, every) for r in waiting])
    for r, p in procs.items():
        if stuck and p.is_alive():
            p.kill()
        p.join()
        conns[r].close()
    return results, stuck, pids
