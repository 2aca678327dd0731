ID="c23-average-only"; PROPERTY="C23"
EDITS=[("pyconform/mapdates.py","""    for d in sorted(date_info.keys()):
        file_list""","""    for d in sorted(date_info.keys(), key=lambda k: int(k[0])):
        file_list""")]
NEEDS="files of less than a day each (hourly data), given out of order"
BREAKS="files are returned out of order"
DEMO='''
from demo_common import *
from pyconform.mapdates import get_files_in_order
fs = []
for k, n in enumerate("cab"):
    t = np.arange(4.0) / 24 + {"a": 0, "b": 4 / 24.0, "c": 8 / 24.0}[n]
    fs.append(infile(n + ".nc", {"time": 4}, {"time": (("time",), t, {"units": "days since 2000-01-01", "calendar": "standard"})}, unlimited=["time"]))
names, counts, err = get_files_in_order(fs)
expect(names == ["a.nc", "b.nc", "c.nc"] and not err, "{} {}".format(names, err))
'''
