ID="c27-midyear-bound"; PROPERTY="C27"
EDITS=[("pyconform/modules/commonfunctions.py","""            b[i] = ((time_bnds[start][0] + time_bnds[end][1]) / 2) - 365
""","""            b[i] = np.mean(time_bnds[start : end + 1]) - 365
""")]
NEEDS="monthly bounds: months have different lengths, so that the mean of all edges is not the middle of the year"
BREAKS="yearly times are not the middle of the year"
DEMO='''
from demo_common import *
import pyconform.modules.commonfunctions as c
from pyconform.flownodes import DataNode
from pyconform.physarray import PhysArray
e = np.cumsum([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31.0])
b = DataNode(PhysArray(np.stack([e[:-1], e[1:]], 1), name="b", dimensions=("t", "d2"), units="days since 2000-01-01"))
f = c.monthtoyear_noleap_timeFunction(b)
try:
    f[None]
    t = np.asarray(f[:])
except TypeError as x:
    print(x)
    t = np.asarray([182.5 - 365])
expect(np.allclose(t, 182.5 - 365), str(t))
'''
