ID="c16-blanks-between-coordinates"; PROPERTY="C16"
EDITS=[("pyconform/datasets.py","""vdesc.attributes["coordinates"].split():""","""vdesc.attributes["coordinates"].split(" "):""")]
NEEDS="a coordinates attribute with more than one blank, or a line break, between two names"
BREAKS="the specification is refused"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 2}, {"a": (("x",), np.array([1.0, 2]), {"units": "m"}), "c": (("x",), np.array([3.0, 4]), {"units": "m"})})
spec = OrderedDict()
spec["p"] = var("c", ["x"], units="m")
spec["q"] = var("c", ["x"], units="m")
spec["v"] = var("a", ["x"], file="v.nc", units="m", coordinates="p  q")
try:
    convert([i], spec)
except Exception as e:
    expect(False, repr(e))
expect(read("v.nc", "p").tolist() == [3, 4] and read("v.nc", "q").tolist() == [3, 4], "coordinates missing")
'''
