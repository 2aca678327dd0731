ID="c25-first-time-step"; PROPERTY="C25"
EDITS=[("pyconform/modules/dynvarmipdiags.py","""        dthdp = deriv(levi100, thzm[itime, ...])
        psieddy = vthzm[itime, ...] / dthdp
        dpsidp = deriv(levi100, psieddy)
        vtem[itime""","""        dthdp = deriv(levi100, thzm[min(itime, 1), ...])
        psieddy = vthzm[itime, ...] / dthdp
        dpsidp = deriv(levi100, psieddy)
        vtem[itime""")]
NEEDS="more than two time steps with different stratification"
BREAKS="later steps use the stratification of the second one"
DEMO='''
from demo_common import *
from pyconform.modules.dynvarmipdiags import vtem
r = np.random.RandomState(0)
lev, lat = np.array([1.0, 5, 20, 100, 500]), np.array([-60.0, -20, 10, 50])
v, vth = r.rand(4, 5, 4), r.rand(4, 5, 4)
th = 300 + 50 * np.cumsum(1 + r.rand(4, 5, 4), axis=1)
t = np.arange(4.0)
got = vtem(t, lev, lat, v, vth, th)
for k in range(4):
    one = vtem(t[:1], lev, lat, v[k:k + 1], vth[k:k + 1], th[k:k + 1])
    expect(np.allclose(one[0], got[k]), "step {} depends on others".format(k))
'''
