ID="c29-no-compression-option"; PROPERTY="C29"
EDITS=[("pyconform/cli/xconform.py","""        deflate=args.deflate,
        debug""","""        deflate=args.deflate or None,
        debug""")]
NEEDS="the option that switches compression off for a file that declares a level"
BREAKS="the option has no effect"
DEMO='''
from demo_common import *
import json
import netCDF4
from contextlib import redirect_stdout
from pyconform.cli.xconform import main
i = infile("i.nc", {"x": 4}, {"v": (("x",), np.arange(4.0), {})})
v = var("v", ["x"], file="v.nc")
v["file"]["deflate"] = 4
json.dump({"v": v}, open(os.path.join(SCRATCH, "s.json"), "w"))
with open(os.devnull, "w") as n, redirect_stdout(n):
    main(["-s", "-d", "0", "-f", os.path.join(SCRATCH, "s.json"), i])
with netCDF4.Dataset(v["file"]["filename"]) as f:
    expect(not f.variables["v"].filters()["zlib"], "compressed although the option says no")
'''
