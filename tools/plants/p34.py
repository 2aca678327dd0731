ID="c14-two-coordinates"; PROPERTY="C14"
EDITS=[("pyconform/flownodes.py","""                        if vdir_inp != vdir_out:
                            self._idims.add(tuple(vdesc.dimensions.keys())[0])
""","""                        if vdir_inp != vdir_out:
                            self._idims = {tuple(vdesc.dimensions.keys())[0]}
""")]
NEEDS="a file with two coordinates that both have to be turned over"
BREAKS="only the last one is turned over"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 3, "y": 2}, {"x": (("x",), np.arange(3.0), {}), "y": (("y",), np.arange(2.0), {}), "v": (("x", "y"), np.arange(6.0).reshape(3, 2), {})})
convert([i], {"v": var("v", ["x", "y"], file="o.nc"), "x": var("x", ["x"], axis="X", direction="decreasing"), "y": var("y", ["y"], axis="Y", direction="decreasing")})
expect((read("o.nc", "v") == np.arange(6.0).reshape(3, 2)[::-1, ::-1]).all(), "v")
expect((read("o.nc", "x") == [2, 1, 0]).all() and (read("o.nc", "y") == [1, 0]).all(), "coordinates")
'''
