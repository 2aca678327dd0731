ID="c14-flat-coordinate"; PROPERTY="C14"
EDITS=[("pyconform/flownodes.py","""        if numpy.all(diff > 0):
            return "increasing"
        elif numpy.all(diff < 0):
            return "decreasing\"""","""        if numpy.all(diff >= 0):
            return "increasing"
        elif numpy.all(diff <= 0):
            return "decreasing\"""")]
NEEDS="a coordinate with a repeated value that declares a direction"
BREAKS="a coordinate that is not strictly monotone is accepted and written"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 4}, {"x": (("x",), np.array([1.0, 2.0, 2.0, 3.0]), {}), "v": (("x",), np.arange(4.0), {})})
for direction in ("increasing", "decreasing"):
    try:
        convert([i], {"v": var("v", ["x"], file="o.nc"), "x": var("x", ["x"], axis="X", direction=direction)})
    except Exception:
        continue
    expect(False, "accepted " + direction)
'''
