ID="c20-name-coincidence"; PROPERTY="C20"
EDITS=[("pyconform/dataflow.py","""                idd = self._ids.dimensions[o2imap[dname]]
""","""                idd = self._ids.dimensions.get(
                    dname, self._ids.dimensions[o2imap[dname]]
                )
""")]
NEEDS="an output dimension with the name of another input dimension than the one it stands for"
BREAKS="the output dimension takes size and unlimited flag of the input dimension of the same name"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 3, "y": 5}, {"a": (("x",), np.arange(3.0), {}), "b": (("y",), np.zeros(5), {})})
try:
    convert([i], {"a": var("a", ["y"], file="a.nc")})
except Exception as e:
    expect(False, str(e))
expect(read("a.nc", "a").shape == (3,), "size")
'''
