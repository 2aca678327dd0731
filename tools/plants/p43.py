ID="c17-fill-value-zero"; PROPERTY="C17"
EDITS=[("pyconform/flownodes.py","""                fillval = vattrs.get("_FillValue", None)
""","""                fillval = vattrs.get("_FillValue") or None
""")]
NEEDS="a declared fill value of zero"
BREAKS="the declared fill value is not in the header"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 3}, {"v": (("x",), np.array([1.0, 2.0, 3.0]), {"units": "m"})})
convert([i], {"w": var("v", ["x"], file="o.nc", units="m", _FillValue=0.0)})
with netCDF4.Dataset(os.path.join(SCRATCH, "o.nc")) as f:
    expect("_FillValue" in f.variables["w"].ncattrs() and f.variables["w"]._FillValue == 0, str(f.variables["w"]))
'''
