ID="c06-reflected-subtraction"; PROPERTY="C06"
EDITS=[("pyconform/physarray.py","""    def __rsub__(self, other):
        return PhysArray(other).__sub__(self)
""","""    def __rsub__(self, other):
        return PhysArray(other, units=self.units).__sub__(self)
""")]
NEEDS="a plain number minus a dimensionless quantity in another unit than one (percent)"
BREAKS="the number is taken to be in the units of the quantity"
DEMO='''
from demo_common import *
from pyconform.physarray import PhysArray
a = PhysArray(np.array([40.0]), name="a", dimensions=("x",), units="%")
r = 1 - a
expect(abs(float(r.convert("1")[0]) - 0.6) < 1e-12, "{!r}".format(r))
'''
