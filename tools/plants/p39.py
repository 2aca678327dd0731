ID="c33-order-of-dimensions"; PROPERTY="C33"
EDITS=[("pyconform/modules/pnglfunctions.py","""        if (dlevi, dlat, dlon) != datai_info.dimensions[-3:]:
""","""        if {dlevi, dlat, dlon} != set(datai_info.dimensions[-3:]):
""")]
NEEDS="a field whose level dimension is not the third last one"
BREAKS="the interpolation mixes levels with latitudes instead of refusing the field"
DEMO='''
from demo_common import *
import types
calls = []
stub = types.ModuleType("Ngl")
def vinth2p(datai, a, b, plevo, psfc, intyp, p0, ii, kxtrp):
    calls.append(np.shape(datai))
    return np.zeros(datai.shape[:-3] + (len(plevo),) + datai.shape[-2:])
stub.vinth2p = vinth2p
sys.modules["Ngl"] = stub
from pyconform.modules import pnglfunctions as m
from pyconform.physarray import PhysArray, DimensionsError
f = next(c for c in vars(m).values() if getattr(c, "key", None) == "vinth2p")
lev = PhysArray([0.1, 0.2], dimensions=("lev",), units="1", name="h")
data = PhysArray(np.zeros((2, 2, 2)), dimensions=("lat", "lev", "lon"), units="K", name="T")
plev = PhysArray([500.0], dimensions=("p",), units="hPa", name="p")
ps = PhysArray(np.full((2, 2), 1e5), dimensions=("lat", "lon"), units="Pa", name="ps")
p0 = PhysArray(1e5, units="Pa", name="p0")
try:
    f(data, lev, lev, plev, ps, p0)[:]
except DimensionsError:
    pass
else:
    expect(False, "a field with dimensions (lat, lev, lon) was interpolated along lat")
'''
