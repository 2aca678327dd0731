ID="c01-keyword-of-given-data"; PROPERTY="C01"
EDITS=[("pyconform/dataflow.py","""                k: self._construct_flow_(obj.kwds[k], datnodes=datnodes)
""","""                k: self._construct_flow_(obj.kwds[k])
""")]
NEEDS="a keyword argument that names a variable whose data are given in the specification"
BREAKS="the variable is left out of the output"
DEMO='''
from demo_common import *
import pyconform.modules.commonfunctions
i = infile("i.nc", {"x": 3, "bnds": 2}, {"n": (("bnds",), np.array([0.0, 1.0]), {}), "v": (("x",), np.array([1.0, 2.0, 3.0]), {"units": "m"})})
spec = {"edges": var([0.0, 1.5, 2.5, 4.0], ["e"], units="m", file="e.nc"),
        "b": var("bounds(v, idata=edges)", ["x", "bnds"], file="o.nc", units="m")}
convert([i], spec)
expect(os.path.exists(os.path.join(SCRATCH, "o.nc")), "no file")
expect(read("o.nc", "b").tolist() == [[0, 1.5], [1.5, 2.5], [2.5, 4]], str(read("o.nc", "b")))
'''
