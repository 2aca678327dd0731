ID="c15-third-file"; PROPERTY="C15"
EDITS=[("pyconform/datasets.py","""                if not all([d == ndescs[0] for d in ndescs[1:]]):
                    err_msg = (
                        "Multiple VariableDescs""","""                if ndescs[0] != ndescs[1]:
                    err_msg = (
                        "Multiple VariableDescs""")]
NEEDS="three input files that hold a variable, where the third contradicts the first two"
BREAKS="contradictory files are accepted"
DEMO='''
from demo_common import *
from pyconform.datasets import InputDatasetDesc
f = [infile(n, {"x": 2}, {"v": (("x",), np.zeros(2, t), {})}) for n, t in (("a.nc", "f8"), ("b.nc", "f8"), ("c.nc", "f4"))]
try:
    InputDatasetDesc(filenames=f)
except ValueError:
    pass
else:
    expect(False, "accepted")
'''
