ID="c26-lower-end"; PROPERTY="C26"
EDITS=[("pyconform/modules/commonfunctions.py","""                    new_data[0, 0] = data.data[0] - hdx[0]
""","""                    new_data[0, 0] = data.data[0] - hdx[-1]
""")]
NEEDS="a coordinate that is not evenly spaced, bounds at half way with end points"
BREAKS="the first edge repeats the spacing of the other end"
DEMO='''
from demo_common import *
from pyconform.flownodes import DataNode
from pyconform.modules.commonfunctions import BoundsFunction
from pyconform.physarray import PhysArray
x = DataNode(PhysArray(np.array([1.0, 2.0, 4.0]), name="x", dimensions=("x",), units="m"))
b = BoundsFunction(x)[:]
expect((np.asarray(b) == [[0.5, 1.5], [1.5, 3], [3, 5]]).all(), str(np.asarray(b)))
'''
