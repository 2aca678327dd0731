ID="c18-last-date-calendar"; PROPERTY="C18"
EDITS=[("pyconform/flownodes.py","""                    num2date(t2.data[0], str(t2.units), t2.units.calendar)
""","""                    num2date(t2.data[0], str(t2.units), tnode.attributes.get("calendar", "standard"))
""")]
NEEDS="a time variable made by a definition with units of its own: the calendar is known from the units only"
BREAKS="the last date in the file name is that of the standard calendar"
DEMO='''
from demo_common import *
i = infile("i.nc", {"time": 3}, {"time": (("time",), np.array([0.0, 365.0, 3650.0]), {"units": "days since 2000-01-01", "calendar": "noleap"})})
import glob
convert([i], {"time": var("time", ["time"], file="o_{%Y%m%d-%Y%m%d}.nc", axis="T")})
names = [os.path.basename(p) for p in glob.glob(os.path.join(SCRATCH, "o_*.nc"))]
expect(names == ["o_20000101-20100101.nc"], str(names))
'''
