ID="c26-end-of-uneven-axis"; PROPERTY="C26"
EDITS=[("pyconform/modules/commonfunctions.py","""                    new_data[-1, 1] = data.data[-1] + hdx[-1]
""","""                    new_data[-1, 1] = data.data[-1] + hdx[0]
""")]
NEEDS="points in the middle of their cells that are not evenly spaced"
BREAKS="the last cell has the width of the first"
DEMO='''
from demo_common import *
import pyconform.modules.commonfunctions
i = infile("i.nc", {"x": 3, "bnds": 2}, {"x": (("x",), np.array([0.0, 1.0, 4.0]), {"units": "m"}), "n": (("bnds",), np.array([0.0, 1]), {})})
convert([i], {"y": var("bounds(x, location=1)", ["x", "bnds"], file="o.nc", units="m")})
got = read("o.nc", "y").tolist()
expect(got == [[-0.5, 0.5], [0.5, 2.5], [2.5, 5.5]], str(got))
'''
