ID="c33-missing-value-of-library"; PROPERTY="C33"
EDITS=[("pyconform/modules/pnglfunctions.py","""        v[v == 1e30] = 1e20
        v = masked_values(v, 1e20, copy=False)
""","""        v = masked_values(v, 1e20, copy=False)
        v[v == 1e30] = 1e20
""")]
NEEDS="pressure levels below the surface, without extrapolation, where the library returns its missing value 1e30"
BREAKS="the levels below the surface are written as 1e20 but not missing"
DEMO='''
from demo_common import *
import types
stub = types.ModuleType("Ngl")
def vinth2p(datai, a, b, plevo, psfc, intyp, p0, ii, kxtrp):
    out = np.full(datai.shape[:-3] + (len(plevo),) + datai.shape[-2:], 250.0)
    out[..., 0, 0, 0] = 1e30
    return out
stub.vinth2p = vinth2p
sys.modules["Ngl"] = stub
from pyconform.modules import pnglfunctions as m
from pyconform.physarray import PhysArray
f = next(c for c in vars(m).values() if getattr(c, "key", None) == "vinth2p")
lev = PhysArray([0.1, 0.2], dimensions=("lev",), units="1", name="h")
data = PhysArray(np.zeros((2, 2, 2)), dimensions=("lev", "lat", "lon"), units="K", name="T")
plev = PhysArray([1000.0], dimensions=("p",), units="hPa", name="p")
ps = PhysArray(np.full((2, 2), 9e4), dimensions=("lat", "lon"), units="Pa", name="ps")
p0 = PhysArray(1e5, units="Pa", name="p0")
v = f(data, lev, lev, plev, ps, p0)[:]
expect(np.ma.getmaskarray(v).tolist() == [[[True, False], [False, False]]], str(np.ma.getmaskarray(v)))
'''
