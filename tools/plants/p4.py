ID="c08-broadcast-size-one"; PROPERTY="C08"
EDITS=[("pyconform/physarray.py","""            if (
                self.shape[self.dimensions.index(d)]
                != other.shape[other.dimensions.index(d)]
            ):
                raise DimensionsError(""","""            sizes = (
                self.shape[self.dimensions.index(d)],
                other.shape[other.dimensions.index(d)],
            )
            if sizes[0] != sizes[1] and 1 not in sizes:
                raise DimensionsError(""")]
NEEDS="two arrays that share a dimension name of which one has size one"
BREAKS="arrays with contradictory sizes of one dimension are combined instead of rejected"
DEMO='''
from demo_common import *
from pyconform.physarray import PhysArray
x = PhysArray([1.0, 2.0, 3.0], units="m", dimensions=("x",), name="x")
y = PhysArray([5.0], units="m", dimensions=("x",), name="y")
for f in (lambda: x + y, lambda: y * x):
    try:
        r = f()
    except Exception:
        continue
    expect(False, repr(r))
'''
