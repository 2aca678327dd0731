ID="c24-falling-grid"; PROPERTY="C24"
EDITS=[("pyconform/modules/idl.py","""    valloc = numpy.digitize(x, xa) - 1
""","""    valloc = numpy.searchsorted(xa, x, side="right") - 1
""")]
NEEDS="a grid that falls"
BREAKS="points are interpolated in the wrong interval of a falling grid"
DEMO='''
from demo_common import *
from pyconform.modules.idl import spl_init, spl_interp
x = np.array([4.0, 3.0, 1.0, 0.0])
y = x * 2
got = spl_interp(x, y, spl_init(x, y), np.array([0.5, 2.0, 3.5]))
z = np.array([0.0, 1.0, 5.0, 2.0])
a = spl_interp(x, z, spl_init(x, z), np.array([0.5, 2.0, 3.5]))
b = spl_interp(x[::-1].copy(), z[::-1].copy(), spl_init(x[::-1].copy(), z[::-1].copy()), np.array([0.5, 2.0, 3.5]))
expect(np.allclose(a, b), "{} {}".format(a, b))
'''
