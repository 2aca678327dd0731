ID="c22-calendar-with-refdate"; PROPERTY="C22"
EDITS=[("pyconform/flownodes.py","""                if self._vdesc.calendar() is None and info.units.calendar is not None:
""","""                declared = self._vdesc.calendar() or self._vdesc.refdatetime()
                if declared is None and info.units.calendar is not None:
""")]
NEEDS="a time variable in a non-standard calendar whose output declares a reference date but no calendar"
BREAKS="the calendar is not inherited"
DEMO='''
from demo_common import *
import netCDF4
i = infile("i.nc", {"time": 3}, {"time": (("time",), np.array([0.0, 365.0, 3650.0]), {"units": "days since 2000-01-01", "calendar": "noleap"})})
try:
    convert([i], {"time": var("time", ["time"], file="o.nc", units="days since 1999-01-01")})
except Exception as e:
    expect(False, str(e))
expect((read("o.nc", "time") == [365, 730, 4015]).all(), "times")
'''
