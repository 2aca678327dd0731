ID="c32-history-in-name"; PROPERTY="C32"
EDITS=[("pyconform/climIO.py","""        for n in attr:
            v = temp_file.getncattr(n)
            if n == "history":
""","""        for n in attr:
            v = temp_file.getncattr(n)
            if n.startswith("history"):
""")]
NEEDS="a global attribute whose name begins with history but is another one (history_of_appended_files)"
BREAKS="attributes copied from the template file are altered"
DEMO='''
from demo_common import *
from pyconform.climIO import NetCDF4PyPort
i = os.path.join(SCRATCH, "t.nc")
with netCDF4.Dataset(i, "w", format="NETCDF3_CLASSIC") as f:
    f.history = "made"
    f.history_of_appended_files = "none"
    f.createDimension("time", None)
    f.createVariable("v", "f4", ("time",))[:] = np.arange(3, dtype="f4")
io = NetCDF4PyPort()
o = os.path.join(SCRATCH, "o.nc")
new = io.create_file(o, "netcdf")
_vars, new = io.define_file(new, "v", [], i, "v")
io.close_file(new)
with netCDF4.Dataset(o) as f:
    expect(f.history.endswith("made"), f.history)
    expect(f.history_of_appended_files == "none", f.history_of_appended_files)
'''
