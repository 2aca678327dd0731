ID="c13-mean-at-limit"; PROPERTY="C13"
EDITS=[("pyconform/flownodes.py","""            if mean_abs > ok_max_mean_abs:""","""            if mean_abs >= ok_max_mean_abs:""")]
NEEDS="data whose mean absolute value is exactly the largest accepted one"
BREAKS="a warning is given although the mean is within its range"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 4}, {"v": (("x",), np.array([-1.0, 2.0, -3.0, 2.0]), {})})
w = convert([i], {"v": var("v", ["x"], file="v.nc", ok_max_mean_abs=2.0)})
expect(not [x for x in w if "ok_max_mean_abs" in str(x.message)], "warned of a mean that is allowed")
'''
