ID="c01-cyclic-order"; PROPERTY="C01"; ALSO=["C08"]
EDITS=[("pyconform/physarray.py","""            axes = tuple(self.dimensions.index(d) for d in dims)
""","""            axes = tuple(dims.index(d) for d in self.dimensions)
""")]
NEEDS="a variable of three dimensions whose declared order is a rotation of the order in the input"
BREAKS="values are laid out in another order than declared"
DEMO='''
from demo_common import *
d = np.arange(27.0).reshape(3, 3, 3)
i = infile("i.nc", {"x": 3, "y": 3, "z": 3}, {"a": (("x", "y", "z"), d, {}), "x": (("x",), d[:, 0, 0], {}), "y": (("y",), d[0, :, 0], {}), "z": (("z",), d[0, 0], {})})
spec = {n: var(n, [n], file=n + ".nc") for n in "xyz"}
spec["a"] = var("a", ["z", "x", "y"], file="a.nc")
convert([i], spec)
expect((read("a.nc", "a") == d.transpose(2, 0, 1)).all(), "order")
'''
