ID="c06-exponent-unit"; PROPERTY="C06"
EDITS=[("pyconform/physarray.py","""        return exp.convert(Unit(1))
""","""        return exp
""")]
NEEDS="an exponent given in a scaled dimensionless unit such as percent"
BREAKS="x ** (200 %) raises to the power 200 instead of 2, in value and unit"
DEMO='''
from demo_common import *
from pyconform.physarray import PhysArray
x = PhysArray([2.0, 3.0], units="m", dimensions=("x",), name="x")
r = x ** PhysArray(200.0, units="%", name="p")
expect(np.allclose(r.data, [4, 9]) and r.units == "m2", repr(r))
'''
