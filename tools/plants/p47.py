ID="c28-urban-without-area"; PROPERTY="C28"
EDITS=[("pyconform/modules/CLM_landunit_to_CMIP6_Lut.py","""                        * (land1d_ityplunit <= end_urban_lunit)
                        * (land1d_wtgcell > 0)
                    )[0]
""","""                        * (land1d_ityplunit <= end_urban_lunit)
                    )[0]
""")]
NEEDS="an active urban land unit without area and without data beside one that has both"
BREAKS="the urban tile of the cell is missing instead of that of the units with an area"
DEMO='''
from demo_common import *
from pyconform.flownodes import DataNode
from pyconform.modules import CLM_landunit_to_CMIP6_Lut as m
from pyconform.physarray import PhysArray
f = next(c for c in vars(m).values() if getattr(c, "key", None) == "CLM_landunit_to_CMIP6_Lut")
def n(d, dims, name, units="1"):
    return DataNode(PhysArray(np.ma.asarray(d), dimensions=dims, name=name, units=units))
g, l = ("gridcell",), ("landunit",)
u = f(n(np.ma.array([[5.0, 7.0, 9.0]], mask=[[0, 0, 1]]), ("time", "landunit"), "E"), "all", n([0.0], ("time",), "time"), n([10.0], ("lat",), "lat"),
      n([20.0], ("lon",), "lon"), n([1], g, "ixy"), n([1], g, "jxy"), n([20.0], g, "glon"), n([10.0], g, "glat"),
      n([20.0] * 3, l, "llon"), n([10.0] * 3, l, "llat"), n([1, 7, 8], l, "ityp"), n([1, 1, 1], l, "act"),
      n([0.5, 0.5, 0.0], l, "wt"), n(np.arange(4), ("lut",), "lut"))[:]
u = np.ma.masked_values(np.ma.asarray(u), 1e20)
flat = u.ravel()
expect(not np.ma.getmaskarray(flat)[3] and flat[0] == 5.0 and flat[3] == 7.0, str(u))
'''
