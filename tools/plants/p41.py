ID="c04-many-variables"; PROPERTY="C04"
EDITS=[("pyconform/flownodes.py","""            tmp_fname = "{}{}".format(fname, self._tmp_ext)
""","""            tmp_fname = "{}{}".format(fname, self._tmp_ext * (len(self.inputs) < 10))
""")]
NEEDS="a file of ten or more variables and a run that ends early, or an older file of that name"
BREAKS="large files are written under their final name"
DEMO='''
from demo_common import *
import pyconform.flownodes as fl
i = infile("i.nc", {"x": 4}, {"v": (("x",), np.arange(4.0), {})})
seen = []
real = fl.Dataset
def spy(name, mode="r", *a, **k):
    if mode != "r":
        seen.append(os.path.basename(name))
    return real(name, mode, *a, **k)
fl.Dataset = spy
spec = {"v": var("v", ["x"], file="o.nc")}
for k in range(11):
    spec["c%d" % k] = var("v", ["x"])
convert([i], spec)
expect(seen and "o.nc" not in seen, "written as %s" % seen)
expect(read("o.nc", "c10").tolist() == [0, 1, 2, 3], "data")
'''
