ID="c16-owner-dimensions"; PROPERTY="C16"
EDITS=[("pyconform/datasets.py","""            for vname in vlist:
                vdesc = vlist[vname]
                for dname in vdesc.dimensions:
                    fdims.add(dname)
""","""            for vname in fdict["variables"][:1]:
                vdesc = vlist[vname]
                for dname in vdesc.dimensions:
                    fdims.add(dname)
""")]
NEEDS="a requested meta variable that brings a further dimension into the file, and a file-less variable on that dimension"
BREAKS="file-less variables whose dimensions come only from requested meta variables are left out"
DEMO='''
from demo_common import *
import netCDF4
i = infile("i.nc", {"x": 4, "y": 6}, {"v": (("x",), np.arange(4.0), {}), "w": (("x", "y"), np.zeros((4, 6)), {}), "y": (("y",), np.arange(6.0), {})})
v = var("v", ["x"], file="v.nc")
v["file"]["metavars"] = ["w"]
convert([i], {"v": v, "w": var("w", ["x", "y"]), "y": var("y", ["y"])})
with netCDF4.Dataset(v["file"]["filename"]) as f:
    expect(set(f.variables) == {"v", "w", "y"}, "variables " + " ".join(f.variables))
'''
