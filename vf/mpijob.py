"""One rank of a real MPI run: python -m vf.mpijob JOB.pickle"""
import pickle
import sys

from vf import env

env.setup()
from vf import flow  # noqa: E402

with open(sys.argv[1], "rb") as f:
    job = pickle.load(f)
try:
    flow.build(job["files"], job["dsdict"]).execute(**job["kwds"])
except BaseException:
    import traceback

    from mpi4py import MPI

    traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    MPI.COMM_WORLD.Abort(1)
