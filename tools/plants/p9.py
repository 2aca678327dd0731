ID="c17-no-compression"; PROPERTY="C17"
EDITS=[("pyconform/flownodes.py","""                if deflate is None:
                    zlib = self""","""                if not deflate:
                    zlib = self""")]
NEEDS="an override of the compression with level zero for a file that declares another level"
BREAKS="the override is ignored and the file is compressed"
DEMO='''
from demo_common import *
import netCDF4
i = infile("i.nc", {"x": 4}, {"v": (("x",), np.arange(4.0), {})})
v = var("v", ["x"], file="v.nc")
v["file"]["deflate"] = 4
convert([i], {"v": v}, deflate=0)
with netCDF4.Dataset(v["file"]["filename"]) as f:
    expect(not f.variables["v"].filters()["zlib"], "compressed although the level is zero")
'''
