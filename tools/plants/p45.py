ID="c18-dates-of-bounds"; PROPERTY="C18"
EDITS=[("pyconform/flownodes.py","""                        vdesc.cfunits().is_time_reference()
                        and len(vdesc.dimensions) == 1
""","""                        vdesc.cfunits().is_time_reference()
                        and len(vdesc.dimensions) > 0
""")]
NEEDS="a file whose time coordinate is not called time and that a variable with a second dimension, in units of time, is given"
BREAKS="the dates of the file name are looked for in the bounds"
DEMO='''
from demo_common import *
u = "days since 2000-01-01"
i = infile("i.nc", {"t": 3, "b": 2}, {"t": (("t",), np.array([0.5, 1.5, 2.5]), {"units": u, "calendar": "noleap"}),
    "tb": (("t", "b"), np.array([[0.0, 1], [1, 2], [2, 3]]), {"units": u, "calendar": "noleap"}),
    "v": (("t",), np.array([1.0, 2, 3]), {"units": "m"})})
spec = OrderedDict()
spec["when_bnds"] = var("tb", ["when", "bnds"], file="w_{%Y%m%d-%Y%m%d}.nc", units=u, calendar="noleap")
spec["when"] = var("t", ["when"], units=u, calendar="noleap", bounds="when_bnds")
try:
    convert([i], spec)
except Exception as e:
    expect(False, repr(e))
expect(os.path.exists(os.path.join(SCRATCH, "w_20000101-20000103.nc")), str(os.listdir(SCRATCH)))
'''
