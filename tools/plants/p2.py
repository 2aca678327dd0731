ID="c04-rename-before-close"; PROPERTY="C04"
EDITS=[("pyconform/flownodes.py","""        if self._file is not None:
            self._file.close()
            self._idims = set()
            self._file = None
            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""","""        if self._file is not None:
            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
            self._file.close()
            self._idims = set()
            self._file = None
""")]
NEEDS="the process to be killed between the rename and the end of the close that flushes the data"
BREAKS="a partially written file is visible under the output name"
DEMO='''
import os
real = os.rename
def rename(a, b, *r, **k):
    real(a, b, *r, **k)
    os._exit(0 if complete(b) else 1)  # killed at this point
os.rename = rename
from demo_common import *
def complete(path):
    pid = os.fork()
    if pid == 0:
        try:
            with netCDF4.Dataset(path) as f:
                ok = f.variables["x"][:].tolist() == [0, 1, 2]
        except Exception:
            ok = False
        os._exit(0 if ok else 1)
    return os.waitpid(pid, 0)[1] == 0
i = infile("i.nc", {"x": 3}, {"x": (("x",), np.arange(3.0), {})})
import atexit
convert([i], {"x": var("x", ["x"], file={"filename": SCRATCH + "/o.nc", "format": "NETCDF3_CLASSIC"})})
sys.exit(1)
'''
