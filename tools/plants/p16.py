ID="c08-assign-square"; PROPERTY="C08"
EDITS=[("pyconform/physarray.py","""            values = values.convert(self.units).transpose(self.dimensions)
""","""            values = values.convert(self.units)
            if values.shape != self.shape:
                values = values.transpose(self.dimensions)
""")]
NEEDS="an assignment of an array of equal shape but other order of dimensions (a square one)"
BREAKS="values are assigned by position"
DEMO='''
from demo_common import *
from pyconform.physarray import PhysArray
a = PhysArray(np.zeros((3, 3)), name="a", dimensions=("x", "y"))
b = PhysArray(np.arange(9.0).reshape(3, 3), name="b", dimensions=("y", "x"))
a[:] = b
expect((np.asarray(a) == np.arange(9.0).reshape(3, 3).T).all(), "assigned by position")
'''
