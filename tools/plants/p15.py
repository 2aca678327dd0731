ID="c05-operand-reshaped"; PROPERTY="C05"
EDITS=[("pyconform/physarray.py","""        other = self._broadcast_(PhysArray(other)).convert(self.units)
""","""        if not isinstance(other, PhysArray):
            other = PhysArray(other)
        other = self._broadcast_(other).convert(self.units)
""")]
NEEDS="an addition whose second operand lacks a dimension of the first, and a later use of that operand"
BREAKS="the operand has further dimensions afterwards"
DEMO='''
from demo_common import *
from pyconform.physarray import PhysArray
a = PhysArray(np.ones((2, 3)), name="a", dimensions=("x", "y"))
b = PhysArray(np.ones(3), name="b", dimensions=("y",))
a + b
expect(b.dimensions == ("y",) and b.shape == (3,), "operand has become {}".format(b.dimensions))
'''
