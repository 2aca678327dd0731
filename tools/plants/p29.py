ID="c28-inactive-urban"; PROPERTY="C28"
EDITS=[("pyconform/modules/CLM_landunit_to_CMIP6_Lut.py","""        tu = np.stack((land1d_lon, land1d_lat, land1d_active), axis=1)
""","""        tu = np.stack((land1d_lon, land1d_lat), axis=1)
"""),("pyconform/modules/CLM_landunit_to_CMIP6_Lut.py","""                    t_var = (grid1d_lon_pt, grid1d_lat_pt, active_lunit)
""","""                    t_var = (grid1d_lon_pt, grid1d_lat_pt)
""")]
NEEDS="an urban land unit that is not active but has a share of its cell"
BREAKS="the inactive unit takes part in the average"
DEMO='''
from demo_common import *
from pyconform.flownodes import DataNode
from pyconform.modules.CLM_landunit_to_CMIP6_Lut import CLM_landunit_to_CMIP6_Lut_Function as F
from pyconform.physarray import PhysArray
def n(data, *dims):
    return DataNode(PhysArray(np.array(data), name="a", dimensions=dims))
f = F(n([[1.0, 5.0]], "t", "l"), "urban", n([0.0], "t"), n([10.0], "y"), n([20.0], "x"), n([1], "g"), n([1], "g"), n([20.0], "g"),
      n([10.0], "g"), n([20.0, 20.0], "l"), n([10.0, 10.0], "l"), n([7, 8], "l"), n([1, 0], "l"), n([0.5, 0.5], "l"), n(np.arange(4), "u"))
with open(os.devnull, "w") as null:
    old, sys.stdout = sys.stdout, null
    got = f[:]
    sys.stdout = old
expect(float(got[0, 0, 0].data) == 1.0, str(np.asarray(got)))
'''
